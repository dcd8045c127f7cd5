"""Exact translation of (mostly linear) bit-vector formulas to linear integer arithmetic.

Every bit-vector term becomes an integer term congruent to it modulo 2^w together with an interval
that contains it; a quotient/remainder pair is introduced only where a comparison, extension or
extraction needs the canonical value and the interval does not already give it.  The definitions of
those pairs determine them uniquely, so the translation preserves satisfiability both ways.
Terms outside the fragment raise Unsupported and the caller falls back to bit-vector solvers.
"""
import z3
from z3 import IntVal, Int, And, Or, Not, Implies, If, is_bv_value


class Unsupported(Exception):
    pass


def iv(n):
    return IntVal(n)


NODEP = frozenset()


class Lia:
    """persistent: translations are memoised for the whole verification of one entry point.
    self.range holds bounds that are axioms there (they hold on every path that mentions the symbol)."""

    def __init__(self):
        self.defs = []          # definition formulas
        self.defdeps = []       # definition -> definitions it depends on
        self.inc = z3.Solver()
        self.stack = []
        self.ninc = 0
        self.asserted = set()
        self.leaf = {}          # name -> (Int, width, def index)
        self.range = {}         # name -> [lo, hi]
        self.bmemo = {}
        self.memo = {}
        self.umemo = {}
        self.smemo = {}
        self.n = 0
        self.keep = []
        self.ufs = {}
        self.bad = set()
        self.pend = []

    def fresh(self):
        self.n += 1
        return Int('q!%d' % self.n)

    def adddef(self, f, deps):
        self.defs.append(f)
        self.defdeps.append(deps)
        return deps | {len(self.defs) - 1}

    # -- simple bounds harvested from top-level conjuncts
    def harvest(self, cs):
        for c in cs:
            self.harvest1(c, True)
        for x, hi in self.pend:
            r = self.range.get(x.decl().name())
            if r and r[1] < 1 << (x.size() - 1):
                self.bound(x, None, hi)
        self.pend = []

    def harvest1(self, c, pos):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.harvest1(c.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos:
            for x in c.children():
                self.harvest1(x, True)
            return
        if k == z3.Z3_OP_OR and not pos:
            for x in c.children():
                self.harvest1(x, False)
            return
        if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        w = a.size()
        le = {z3.Z3_OP_SLEQ: ('s', 0), z3.Z3_OP_SLT: ('s', 1), z3.Z3_OP_ULEQ: ('u', 0), z3.Z3_OP_ULT: ('u', 1),
              z3.Z3_OP_SGEQ: ('s', 2), z3.Z3_OP_SGT: ('s', 3), z3.Z3_OP_UGEQ: ('u', 2), z3.Z3_OP_UGT: ('u', 3)}.get(k)
        if le is None:
            if k == z3.Z3_OP_EQ and pos:
                if is_bv_value(b) and self.is_leaf(a):
                    self.bound(a, b.as_long(), b.as_long())
                elif is_bv_value(a) and self.is_leaf(b):
                    self.bound(b, a.as_long(), a.as_long())
            return
        sg, d = le
        if d >= 2:
            a, b = b, a
            d -= 2
        # a <= b - d
        if not pos:
            a, b = b, a
            d = 1 - d
        ze = 0

        def strip(x):
            if x.decl().kind() == z3.Z3_OP_ZERO_EXT:
                return x.arg(0)
            if x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                return x.arg(1)
            return x

        def cval(x):
            v = x.as_long()
            if sg == 's' and v >= 1 << (w - 1):
                v -= 1 << w
            return v
        if is_bv_value(b):
            hi = cval(b) - d
            x = strip(a)
            if self.is_leaf(x):
                if sg == 'u' or x is not a and hi >= 0:
                    self.bound(x, None, hi)
                elif sg == 's' and hi >= 0 and x is a:
                    r = self.range.get(x.decl().name())
                    if r and r[1] < 1 << (w - 1):
                        self.bound(x, None, hi)
                    else:
                        self.pend.append((x, hi))
        elif is_bv_value(a):
            lo = cval(a) + d
            x = strip(b)
            if self.is_leaf(x):
                if sg == 'u' or x is not b:
                    if lo >= 0:
                        self.bound(x, lo, None)
                elif lo >= 0:
                    self.bound(x, lo, (1 << (w - 1)) - 1)

    def is_leaf(self, x):
        return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def bound(self, x, lo, hi):
        nm = x.decl().name()
        r = self.range.setdefault(nm, [0, (1 << x.size()) - 1])
        if lo is not None:
            r[0] = max(r[0], lo)
        if hi is not None:
            r[1] = min(r[1], hi)

    # -- terms: (int expr, lo, hi, definitions used)
    def bv(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._bv(e)
            self.memo[k] = r
            self.keep.append(e)
        return r

    def _bv(self, e):
        w = e.size()
        M = 1 << w
        if is_bv_value(e):
            v = e.as_long()
            return (iv(v), v, v, NODEP)
        d = e.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                nm = d.name()
                lo, hi = self.range.get(nm, (0, M - 1))
                if lo > hi:
                    lo, hi = 0, M - 1
                if nm not in self.leaf:
                    x = Int(nm)
                    self.leaf[nm] = (x, w, self.adddef(And(x >= lo, x <= hi), NODEP))
                lf = self.leaf[nm]
                return (lf[0], lo, hi, lf[2])
            args = []
            dep = NODEP
            for a in e.children():
                if not z3.is_bv(a):
                    raise Unsupported('arg')
                t = self.u(a)
                args.append(t[0])
                dep = dep | t[3]
            f = self.ufs.get(d.name())
            if f is None:
                f = z3.Function('i_' + d.name(), *([z3.IntSort()] * (len(args) + 1)))
                self.ufs[d.name()] = f
            t = f(*args)
            dep = self.adddef(And(t >= 0, t <= M - 1), dep)
            return (t, 0, M - 1, dep)
        ch = e.children()
        if k == z3.Z3_OP_BADD:
            return self.lin([(1, self.bv(c)) for c in ch], w)
        if k == z3.Z3_OP_BSUB:
            ts = [self.bv(c) for c in ch]
            return self.lin([(1, ts[0])] + [(-1, t) for t in ts[1:]], w)
        if k == z3.Z3_OP_BNEG:
            return self.lin([(-1, self.bv(ch[0]))], w)
        if k == z3.Z3_OP_BNOT:
            t, lo, hi, dp = self.bv(ch[0])
            return (iv(-1) - t, -1 - hi, -1 - lo, dp)
        if k == z3.Z3_OP_BMUL:
            c = 1
            rest = []
            for x in ch:
                if is_bv_value(x):
                    c = (c * x.as_long()) % M
                else:
                    rest.append(x)
            if len(rest) > 1:
                raise Unsupported('mul')
            if not rest:
                return (iv(c), c, c, NODEP)
            if c >= M // 2:
                c -= M
            return self.lin([(c, self.bv(rest[0]))], w)
        if k == z3.Z3_OP_CONCAT:
            out = None
            sh = 0
            for x in reversed(ch):
                t = self.u(x)
                if out is None:
                    out = t
                else:
                    m = 1 << sh
                    if is_bv_value(x):
                        v = x.as_long() * m
                        if v:
                            out = (out[0] + v, out[1] + v, out[2] + v, out[3])
                    else:
                        out = (out[0] + t[0] * m, out[1] + t[1] * m, out[2] + t[2] * m, out[3] | t[3])
                sh += x.size()
            return out
        if k == z3.Z3_OP_ZERO_EXT:
            return self.u(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            return self.s(ch[0])
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = d.params()
            if lo_ == 0:
                # congruent modulo 2^n already
                return self.bv(ch[0])
            return self.div(self.u(ch[0]), 1 << lo_)
        if k == z3.Z3_OP_ITE:
            c, cd = self.bool(ch[0])
            a = self.bv(ch[1])
            b = self.bv(ch[2])
            return (If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), cd | a[3] | b[3])
        if k == z3.Z3_OP_BSHL and is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return (iv(0), 0, 0, NODEP)
            return self.lin([(1 << s, self.bv(ch[0]))], w)
        if k == z3.Z3_OP_BLSHR and is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return (iv(0), 0, 0, NODEP)
            return self.div(self.u(ch[0]), 1 << s)
        if k == z3.Z3_OP_BASHR and is_bv_value(ch[1]):
            s = min(ch[1].as_long(), w - 1)
            return self.div(self.s(ch[0]), 1 << s)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and is_bv_value(ch[1]) and ch[1].as_long():
            return self.div(self.u(ch[0]), ch[1].as_long())
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and is_bv_value(ch[1]) and ch[1].as_long():
            return self.mod(self.u(ch[0]), ch[1].as_long())
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            a, b = ch
            if is_bv_value(a):
                a, b = b, a
            if is_bv_value(b):
                m = b.as_long()
                if m == 0:
                    return (iv(0), 0, 0, NODEP)
                lo_ = (m & -m).bit_length() - 1
                top = m >> lo_
                if top & (top + 1) == 0:
                    n = top.bit_length()
                    t = self.u(a)
                    if lo_:
                        t = self.div(t, 1 << lo_)
                    t = self.mod(t, 1 << n)
                    return self.lin([(1 << lo_, t)], w)
            raise Unsupported('and')
        if k == z3.Z3_OP_BOR and len(ch) == 2:
            a, b = ch
            if is_bv_value(a):
                a, b = b, a
            if is_bv_value(b):
                m = b.as_long()
                t = self.u(a)
                lowbit = m & -m
                if t[2] < lowbit:
                    return (t[0] + m, t[1] + m, t[2] + m, t[3])
                if m == M // 2:
                    r = self.mod(t, M // 2)
                    return (r[0] + m, r[1] + m, r[2] + m, r[3])
            raise Unsupported('or')
        raise Unsupported('bv op %s' % d)

    def lin(self, ts, w):
        out = None
        lo = hi = 0
        dep = NODEP
        for c, (t, l, h, dp) in ts:
            x = t if c == 1 else t * c
            out = x if out is None else out + x
            if dp:
                dep = dep | dp
            if c >= 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        # keep numbers near the canonical range
        M = 1 << w
        if lo >= M or hi < -M:
            s = lo // M * M
            out = out - s
            lo -= s
            hi -= s
        return (out, lo, hi, dep)

    def div(self, t, m):
        e, lo, hi, dp = t
        ql, qh = lo // m, hi // m
        if ql == qh:
            return (iv(ql), ql, qh, NODEP)
        q = self.fresh()
        dp = self.adddef(And(q * m <= e, e < q * m + m, q >= ql, q <= qh), dp)
        return (q, ql, qh, dp)

    def mod(self, t, m):
        e, lo, hi, dp = t
        ql, qh = lo // m, hi // m
        if ql == qh:
            return (e - ql * m if ql else e, lo - ql * m, hi - ql * m, dp)
        q = self.fresh()
        dp = self.adddef(And(q * m <= e, e < q * m + m, q >= ql, q <= qh), dp)
        return (e - q * m, 0, m - 1, dp)

    def u(self, e):
        k = e.get_id()
        r = self.umemo.get(k)
        if r is None:
            t = self.bv(e)
            M = 1 << e.size()
            r = t if 0 <= t[1] and t[2] < M else self.mod(t, M)
            self.umemo[k] = r
        return r

    def s(self, e):
        k = e.get_id()
        r = self.smemo.get(k)
        if r is None:
            t = self.bv(e)
            M = 1 << e.size()
            h = M // 2
            if -h <= t[1] and t[2] < h:
                r = t
            else:
                m = self.mod((t[0] + h, t[1] + h, t[2] + h, t[3]), M)
                r = (m[0] - h, m[1] - h, m[2] - h, m[3])
            self.smemo[k] = r
        return r

    # -- formulas: (formula, definitions used)
    def bool(self, e):
        k = e.get_id()
        r = self.bmemo.get(k)
        if r is None:
            if k in self.bad:
                raise Unsupported('cached')
            try:
                r = self._bool(e)
            except Unsupported:
                self.bad.add(k)
                self.keep.append(e)
                raise
            self.bmemo[k] = r
            self.keep.append(e)
        return r

    def many(self, f, ch):
        rs = [self.bool(c) for c in ch]
        dep = NODEP
        for r in rs:
            dep = dep | r[1]
        return (f(*[r[0] for r in rs]), dep)

    def _bool(self, e):
        d = e.decl()
        k = d.kind()
        ch = e.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return (e, NODEP)
        if k == z3.Z3_OP_AND:
            return self.many(And, ch)
        if k == z3.Z3_OP_OR:
            return self.many(Or, ch)
        if k == z3.Z3_OP_NOT:
            return self.many(Not, ch)
        if k == z3.Z3_OP_IMPLIES:
            return self.many(Implies, ch)
        if k == z3.Z3_OP_XOR:
            return self.many(z3.Xor, ch)
        if k == z3.Z3_OP_ITE:
            return self.many(If, ch)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if len(ch) != 2:
                raise Unsupported('distinct')
            a, b = ch
            if z3.is_bool(a):
                r = self.many(lambda x, y: x == y, ch)
            elif z3.is_bv(a):
                r = self.eq(a, b)
            else:
                raise Unsupported('eq')
            return r if k == z3.Z3_OP_EQ else (Not(r[0]), r[1])
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            a, b = self.u(ch[0]), self.u(ch[1])
        elif k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            a, b = self.s(ch[0]), self.s(ch[1])
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            return (e, NODEP)
        else:
            raise Unsupported('bool op %s' % d)
        x, y = a[0], b[0]
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT):
            f = x < y
        elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ):
            f = x <= y
        elif k in (z3.Z3_OP_UGT, z3.Z3_OP_SGT):
            f = x > y
        else:
            f = x >= y
        return (f, a[3] | b[3])

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if is_bv_value(x) and x.as_long() == 0 and y.decl().kind() == z3.Z3_OP_BOR:
                rs = [self.eq(c, x) for c in y.children()]
                return (And([r[0] for r in rs]), frozenset().union(*[r[1] for r in rs]))
        ta, tb_ = self.bv(a), self.bv(b)
        M = 1 << a.size()
        if ta[2] - tb_[1] < M and ta[1] - tb_[2] > -M:
            return (ta[0] == tb_[0], ta[3] | tb_[3])
        ta, tb_ = self.u(a), self.u(b)
        return (ta[0] == tb_[0], ta[3] | tb_[3])

    def solve_inc(self, pc, extra, ms):
        """like solve(), on a solver that keeps the common prefix of the path condition asserted"""
        try:
            fs = [self.bool(c) for c in extra]
            self.ninc += 1
            if self.ninc % 150 == 0:
                self.inc, self.stack, self.asserted = z3.Solver(), [], set()
            st = self.stack
            n = 0
            m = min(len(st), len(pc))
            while n < m and st[n][0] is pc[n]:
                n += 1
            if n < len(st):
                self.inc.pop(len(st) - n)
                for x in st[n:]:
                    self.asserted -= x[1]
                del st[n:]
            for c in pc[n:]:
                f, d = self.bool(c)
                new = frozenset(d) - self.asserted
                self.inc.push()
                st.append((c, new))
                self.asserted |= new
                if new:
                    self.inc.add([self.defs[i] for i in sorted(new)])
                self.inc.add(f)
        except Unsupported:
            return 'unsupported'
        dep = set()
        for f, d in fs:
            dep |= d
        dep -= self.asserted
        self.inc.set('timeout', int(ms))
        self.inc.push()
        self.inc.add([self.defs[i] for i in sorted(dep)])
        self.inc.add([f for f, d in fs])
        r = self.inc.check()
        self.inc.pop()
        return str(r)

    def solve(self, cs, ms, want_model=False):
        """-> 'sat'/'unsat'/'unknown'/'unsupported', model"""
        try:
            fs = [self.bool(c) for c in cs]
        except Unsupported as e:
            return 'unsupported', None
        dep = set()
        for f, d in fs:
            dep |= d
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.add([self.defs[i] for i in sorted(dep)])
        s.add([f for f, d in fs])
        r = s.check()
        if r == z3.sat and want_model:
            return 'sat', Model(self, s.model())
        return str(r), None


class Model:
    def __init__(self, lia, m):
        self.l, self.m = lia, m

    def eval(self, e, model_completion=True):
        sub = []
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x):
                nm = x.decl().name()
                v = 0
                if nm in self.l.leaf:
                    v = self.m.eval(self.l.leaf[nm][0], model_completion=True).as_long()
                sub.append((x, z3.BitVecVal(v, x.size())))
            elif z3.is_const(x) and z3.is_bool(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub.append((x, self.m.eval(x, model_completion=True)))
            stack.extend(x.children())
        return z3.simplify(z3.substitute(e, *sub)) if sub else z3.simplify(e)


