"""Verification-condition generator: bit-precise symbolic execution of the IR of the real code.

Functions without a contract are executed; functions with one are replaced by it.  Loops are cut at
their header by a derived invariant (closed forms of the induction variables + functional memory +
'every earlier iteration took the back edge'), which is itself checked inductively; a loop that does
not fit is unrolled while the path condition stays satisfiable, and the unrolling must end.
"""
import os
import subprocess
import time
import z3
from z3 import (BitVecVal, BitVec, Bool, BoolVal, If, And, Or, Not, Implies, ULT, ULE, UGT, UGE, Extract,
                ZeroExt, SignExt, Concat, simplify, is_bv_value, is_true, is_false, LShR, UDiv, URem, SRem)
import ir
import lia
from mem import Base, Store, Copy, Fill, Seq, Reader, bv, const_of, diff_const, tb


QUOT = ('eq', 'ne', 'ult', 'uge', 'ule', 'ugt')


def truth(x):
    """the condition under which x is 1, if it is 0 otherwise"""
    if is_bv_value(x):
        return BoolVal(x.as_long() == 1) if x.as_long() < 2 else None
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and is_bv_value(x.arg(1)) and is_bv_value(x.arg(2)):
        t, f = x.arg(1).as_long(), x.arg(2).as_long()
        if (t, f) == (1, 0):
            return x.arg(0)
        if (t, f) == (0, 1):
            return Not(x.arg(0))
    return None


class EngineError(Exception):
    """the code left the engine's reach (unsupported construct, loop without derivable invariant...)"""


class SumFail(Exception):
    pass


class Region:
    __slots__ = ('name', 'base', 'size', 'kind', 'tag')

    def __init__(self, name, base, size, kind, tag=None):
        self.name = name
        self.base = base
        self.size = size
        self.kind = kind
        self.tag = tag or {}


class Frame:
    __slots__ = ('fn', 'env', 'block', 'prev', 'idx', 'ret', 'unroll', 'stk')

    def __init__(self, fn, env):
        self.fn = fn
        self.env = env
        self.block = fn.entry
        self.prev = None
        self.idx = 0
        self.ret = None
        self.unroll = {}
        self.stk = []

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.env = dict(self.env)
        f.block = self.block
        f.prev = self.prev
        f.idx = self.idx
        f.ret = self.ret
        f.unroll = dict(self.unroll)
        f.stk = list(self.stk)
        return f


class State:
    __slots__ = ('frames', 'pc', 'mem', 'info', 'regions', 'ghost', 'schemas', 'outcome', 'retval', 'trail', 'known', 'end')

    def __init__(self):
        self.frames = []
        self.pc = []
        self.mem = {}
        self.info = {}
        self.regions = {}
        self.ghost = {}
        self.schemas = []
        self.outcome = None
        self.retval = None
        self.trail = []
        self.known = {}
        self.end = None

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.info = {k: dict(v) for k, v in self.info.items()}
        s.regions = dict(self.regions)
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                   for k, v in self.ghost.items()}
        s.schemas = list(self.schemas)
        s.outcome = self.outcome
        s.retval = self.retval
        s.trail = list(self.trail)
        s.known = dict(self.known)
        s.end = None
        return s


VARS = {}


def freevars(e):
    """free uninterpreted symbols of e (constants and functions)"""
    k = e.get_id()
    r = VARS.get(k)
    if r is not None:
        return r[0]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = VARS.get(i)
        if c is not None:
            out |= c[0]
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    out = frozenset(out)
    if len(VARS) > 200000:
        VARS.clear()
    VARS[k] = (out, e)
    return out


CVC5 = '/usr/local/bin/cvc5' if os.path.exists('/usr/local/bin/cvc5') else 'cvc5'


class Prover:
    """portfolio: z3 (bit-blasting), cvc5 (bit-vectors as integers).  Only 'unsat' from a solver on a
    subset of the assumptions, or on all of them, discharges anything."""

    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.t = 0.0
        self.n = 0
        self.backend = {}
        self.used = None
        self.incremental = bool(int(os.environ.get('INC', '1')))
        self.lia = lia.Lia()

    def slice(self, pc, extra):
        need = set()
        for e in extra:
            need |= freevars(e)
        addr = frozenset(v for v in need if v.startswith('addr_'))
        rest = []
        for c in pc:
            fv = freevars(c)
            a = [v for v in fv if v.startswith('addr_')]
            if a and not all(v in addr for v in a):
                continue
            rest.append((c, fv))
        out = []
        chg = True
        need = set(v for v in need)
        while chg:
            chg = False
            nr = []
            for c, fv in rest:
                if fv & need or not fv:
                    out.append(c)
                    if not fv <= need:
                        need |= fv
                        chg = True
                else:
                    nr.append((c, fv))
            rest = nr
        return out

    def z3run(self, cs, ms, kind, want_model):
        s = z3.SolverFor(kind) if kind else z3.Solver()
        s.set('timeout', int(ms))
        s.add(*cs)
        r = s.check()
        if r == z3.unknown:
            return 'unknown', None
        self.backend['z3' + ('/' + kind if kind else '')] = self.backend.get('z3' + ('/' + kind if kind else ''), 0) + 1
        self.used = 'z3'
        return str(r), (s.model() if r == z3.sat and want_model else None)

    def cvc5run(self, cs, ms):
        s = z3.Solver()
        s.add(*cs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run([CVC5, '--tlimit=%d' % ms, '-q', '--solve-bv-as-int=bitwise', '-'], input=txt,
                               capture_output=True, text=True, timeout=ms / 1000.0 + 5)
            o = p.stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            return 'unknown'
        if o in ('sat', 'unsat'):
            self.backend['cvc5'] = self.backend.get('cvc5', 0) + 1
            self.used = 'cvc5'
            return o
        return 'unknown'

    def portfolio(self, cs, want_model, quick):
        self.trace = []
        plan = [('l', 700, None), ('z', 80, None), ('c', 2000, None), ('z', 3000, 'QF_UFBV')]
        if not quick:
            plan += [('l', self.timeout, None), ('c', self.timeout, None), ('z', self.timeout, 'QF_UFBV'), ('z', self.timeout, None)]
        for k, ms, kind in plan:
            self.trace.append((k, ms, round(time.time() % 1000, 1)))
            if k == 'l':
                r, m = self.lia.solve(cs, ms, want_model)
                if r == 'unsupported':
                    self.backend['(not linear)'] = self.backend.get('(not linear)', 0) + 1
                    r = 'unknown'
                elif r != 'unknown':
                    self.backend['z3/lia'] = self.backend.get('z3/lia', 0) + 1
            elif k == 'z':
                r, m = self.z3run(cs, ms, kind, want_model)
            else:
                r, m = self.cvc5run(cs, ms), None
                if r == 'sat' and want_model:
                    r2, m = self.z3run(cs, self.timeout, None, True)
            if r != 'unknown':
                return r, m
        return 'unknown', None

    def check(self, pc, extra, want_model=False, quick=False):
        """-> 'sat' | 'unsat' | 'unknown', model"""
        t0 = time.time()
        self.n += 1
        try:
            if self.incremental:
                if any(v.startswith('addr_') for e in extra for v in freevars(e)):
                    pcs = None
                else:
                    pcs = [c for c in pc if not any(v.startswith('addr_') for v in freevars(c))]
                if pcs is not None:
                    r = self.lia.solve_inc(pcs, list(extra), 300)
                    if r == 'unsat' or r == 'sat' and quick:
                        self.backend['z3/lia'] = self.backend.get('z3/lia', 0) + 1
                        return r, None
                    self.incfail = getattr(self, 'incfail', 0) + 1
            cs = self.slice(pc, extra) + list(extra)
            full = len(cs) == len(pc) + len(extra)
            r, m = self.portfolio(cs, want_model and full, quick)
            if r == 'unsat' or quick or full:
                return r, m
            return self.portfolio(list(pc) + list(extra), want_model, quick)
        finally:
            d = time.time() - t0
            self.t += d
            if d > 5 and os.environ.get('VSLOW'):
                import sys
                f = sys._getframe(1)
                print('SLOW %.1f quick=%s pc=%d %s<%s trace=%s' % (d, quick, len(pc), f.f_code.co_name, f.f_back.f_code.co_name,
                      getattr(self, 'trace', None)), extra[-1].sexpr()[:200], flush=True)


class Ob:
    __slots__ = ('name', 'cat', 'status', 'info', 'model', 'where')

    def __init__(self, name, cat, status, info=None, model=None, where=None):
        self.name = name
        self.cat = cat
        self.status = status
        self.info = info
        self.model = model
        self.where = where


MAXK = 1 << 40


class Engine:
    def __init__(self, mod, contracts=None, check_nsw=True):
        self.loaded = {}
        self.short = False
        self.mod = mod
        self.contracts = contracts or {}
        self.P = Prover()
        self.obs = []
        self.entry = '?'
        self.nfresh = 0
        self.check_nsw = check_nsw
        self.probing = 0
        self.scev = 0
        self.basesym = {}       # ast id of base const -> region name
        self.basecache = {}
        self.globreg = {}
        self.keep = []
        self.executed = set()
        self.loopinfo = []
        self.fork_select = False
        self.env_loops = False
        self.env_calls = ()
        self.phi_hook = None
        self.loop_sig = None
        self.unroll_limit = 6
        self.loop_contracts = {}
        self.fails = 0
        self.max_fails = 40
        self.paths = 0
        self.glob_init = {}
        self.deadline = None
        self.hooks = {}

    # -- small helpers ---------------------------------------------------
    def fresh(self, name, w=64):
        self.nfresh += 1
        n = '%s!%d' % (name, self.nfresh)
        return Bool(n) if w == 'bool' else BitVec(n, w)

    def ranged(self, st, name, lo, hi, w=64):
        """a fresh bit-vector with lo <= x <= hi (unsigned), an axiom of the symbol"""
        x = self.fresh(name, w)
        self.P.lia.range[x.decl().name()] = [lo, hi]
        st.pc.append(And(UGE(x, BitVecVal(lo, w)), ULE(x, BitVecVal(hi, w))))
        return x

    def ghost_occurs(self, st, hay, needle, off, n):
        """the uninterpreted predicate: the needle occurs at this offset of the haystack"""
        off, n = simplify(off), simplify(n)
        d = self.__dict__.setdefault('occurs', [])
        for h2, n2, o2, l2, f in d:
            if h2 is hay and n2 is needle and (o2.eq(off) or self.decide(st, o2 == off) is True) and \
                    (l2.eq(n) or self.decide(st, l2 == n) is True):
                return f
        self.nfresh += 1
        f = z3.Function('occurs#%d' % self.nfresh, z3.BitVecSort(64), z3.BoolSort())
        d.append((hay, needle, off, n, f))
        return f

    def freshfn(self, name, dom=64, rng=8):
        self.nfresh += 1
        return z3.Function('%s!%d' % (name, self.nfresh), z3.BitVecSort(dom), z3.BitVecSort(rng))

    def new_region(self, st, name, size, kind, content=None, info=None, align=1, tag=None, distinct=True):
        self.nfresh += 1
        rn = '%s#%d' % (name, self.nfresh)
        base = BitVec('addr_' + rn, 64)
        if not z3.is_expr(size):
            size = bv(size)
        r = Region(rn, base, size, kind, tag)
        self.basesym[base.get_id()] = rn
        self.keep.append(base)
        self.P.lia.range[base.decl().name()] = [4096, 0x7fffffffffff]
        cs = [UGE(base, bv(4096)), ULE(base, bv(0x7fffffffffff)), ULE(size, bv(1 << 33)),
              ULE(base + size, bv(0x7fffffffffff))]
        if align > 1:
            cs.append(Extract(align.bit_length() - 2, 0, base) == 0)
        if distinct and kind != 'stack':
            for o in st.regions.values():
                if o.kind == 'stack':
                    continue
                if st.info[o.name].get('live', True) and o.kind != 'ghost':
                    cs.append(Or(ULT(base + size, o.base), ULT(o.base + o.size, base)))
        st.pc.extend(cs)
        st.regions[rn] = r
        st.info[rn] = dict(live=True, read=True, write=True)
        if info:
            st.info[rn].update(info)
        if content is None:
            f = self.freshfn('m_' + name)
            content = Base(lambda off, f=f: f(off))
        st.mem[rn] = content
        return r

    def reader(self, st, use_pc=True):
        if use_pc and not self.scev:
            return Reader(lambda c: self.decide(st, c))
        return Reader()

    def decide(self, st, c):
        k = c.get_id()
        if k in st.known:
            return st.known[k][0]
        r = None
        a, _ = self.P.check(st.pc, [c], quick=True)
        if a == 'unsat':
            r = False
        else:
            b, _ = self.P.check(st.pc, [Not(c)], quick=True)
            if b == 'unsat':
                r = True
        st.known[k] = (r, c)
        if r is None and len(st.known) > 4000:
            st.known.clear()
        return r

    def where(self, st):
        if not st.frames:
            return 'post'
        fr = st.frames[-1]
        return '%s:%s' % (fr.fn.name, fr.block)

    # -- obligations -----------------------------------------------------
    def oblige(self, st, cat, name, formula, inst=(), info=None):
        """record & discharge one obligation; the formula is assumed afterwards."""
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        v, f = tb(formula) if z3.is_expr(formula) else (bool(formula), BoolVal(bool(formula)))
        if self.scev:
            return True
        if self.probing:
            if v is None:
                st.pc.append(f)
            return True
        where = self.where(st)
        full = '%s/%s' % (self.entry, name)
        if v is True:
            self.obs.append(Ob(full, cat, 'ok', 'trivial', None, where))
            return True
        extra = [Not(f)]
        for t in inst:
            for (k, fn) in st.schemas:
                extra.append(Implies(ULT(t, k), fn(t)))
        r, m = self.P.check(st.pc, extra, want_model=True)
        if r == 'unsat':
            self.obs.append(Ob(full, cat, 'ok', None, None, where))
            if v is None and cat != 'ub':
                # (that an operation does not overflow follows from the rest, and is a burden to the solvers)
                st.pc.append(f)
            return True
        # vacuous path?
        self.obs.append(Ob(full, cat, 'failed' if r == 'sat' else 'unknown', info, self.dump_model(st, m), where))
        self.fails += 1
        if self.fails > self.max_fails:
            raise EngineError('too many failed obligations')
        if v is None:
            st.pc.append(f)
        return False

    def dump_model(self, st, m):
        if m is None:
            return None
        d = {}
        for v in st.ghost.get('show', []):
            try:
                val = m.eval(v[1], model_completion=True)
                d[v[0]] = val.as_long() if is_bv_value(val) else str(val)
            except Exception:
                pass
        return d

    def feasible(self, st, extra=()):
        r, _ = self.P.check(st.pc, list(extra), quick=True)
        return r != 'unsat'

    def assume(self, st, f):
        v, e = tb(f)
        if v is True:
            return True
        st.pc.append(e)
        return v is not False

    def fork(self, st, cond):
        """-> list of (bool, state) feasible"""
        if z3.is_expr(cond):
            v, c = tb(cond)
        else:
            v, c = bool(cond), None
        if v is not None:
            return [(v, st)]
        if self.scev:
            s2 = st.clone()
            st.pc.append(c)
            s2.pc.append(Not(c))
            return [(True, st), (False, s2)]
        k = c.get_id()
        if k in st.known and st.known[k][0] is not None:
            return [(st.known[k][0], st)]
        a = self.P.check(st.pc, [c], quick=True)[0] != 'unsat'
        b = self.P.check(st.pc, [Not(c)], quick=True)[0] != 'unsat'
        out = []
        if a and b:
            s2 = st.clone()
            st.pc.append(c)
            s2.pc.append(Not(c))
            return [(True, st), (False, s2)]
        if a:
            st.known[k] = (True, c)
            return [(True, st)]
        if b:
            st.known[k] = (False, c)
            return [(False, st)]
        return []

    def cover(self, outs):
        """vacuity: some path is really reachable, so the obligations are not about nothing"""
        r = 'unsat'
        for s in sorted(outs, key=lambda s: (bool(s.outcome), len(s.pc)))[:6]:
            r = self.P.check(s.pc, [BoolVal(True)])[0]
            if r == 'sat':
                break
        self.obs.append(Ob(self.entry + '/the contract is satisfiable: some path exists', 'vacuity',
                           'ok' if r == 'sat' else 'failed' if r == 'unsat' else 'unknown', None, None, 'post'))

    # -- regions ---------------------------------------------------------
    def bases(self, e):
        k = e.get_id()
        r = self.basecache.get(k)
        if r is not None:
            return r[0]
        out = set()
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.basesym:
                out.add(self.basesym[i])
            if x.num_args():
                # do not descend into uninterpreted content reads
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    continue
                stack.extend(x.children())
        out = frozenset(out)
        self.basecache[k] = (out, e)
        return out

    def separate(self, st, x, y):
        """a comparison of addresses involving a stack object: objects do not overlap"""
        bx, by = self.bases(x), self.bases(y)
        for p in bx:
            for q in by:
                if p == q or p not in st.regions or q not in st.regions:
                    continue
                a, b = st.regions[p], st.regions[q]
                if 'stack' not in (a.kind, b.kind) or 'ghost' in (a.kind, b.kind):
                    continue
                key = 'sep:' + min(p, q) + ':' + max(p, q)
                if key not in st.ghost:
                    st.ghost[key] = True
                    st.pc.append(Or(ULE(a.base + a.size, b.base), ULE(b.base + b.size, a.base)))

    def resolve(self, st, addr, n, write, what, guard=None):
        """-> (region, offset).  n is an int or BV64; guard: condition under which the access happens."""
        addr = simplify(addr)
        nn = bv(n) if isinstance(n, int) else n
        g = [guard] if guard is not None else []
        cands = [b for b in self.bases(addr) if b in st.regions and st.info[b]['live'] is not None]
        if self.scev or self.probing:
            if len(cands) == 1:
                r = st.regions[cands[0]]
                return r, simplify(addr - r.base)
            if self.scev:
                return None, None
        best = None
        order = cands + [x for x in st.regions if x not in cands and st.regions[x].kind != 'ghost']
        if cands:
            order = cands + [x for x in order if x not in cands]
        for rn in order:
            r = st.regions[rn]
            if r.kind == 'ghost':
                continue
            off = simplify(addr - r.base)
            ok = And(ULE(nn, r.size), ULE(off, r.size - nn))
            v, f = tb(ok)
            if v is True:
                best = (r, off)
                break
            if v is False:
                continue
            if len(cands) == 1 and rn == cands[0]:
                # the only syntactic candidate: record it as the obligation
                res, _ = self.P.check(st.pc, g + [Not(f)])
                if res == 'unsat':
                    best = (r, off)
                    break
                continue
            res, _ = self.P.check(st.pc, g + [Not(f)], quick=True)
            if res == 'unsat':
                best = (r, off)
                break
        if best is None:
            rn = cands[0] if cands else None
            if rn is None:
                self.oblige(st, 'mem', '%s: address inside no known object' % what,
                            BoolVal(False) if not g else Not(g[0]))
                return None, None
            r = st.regions[rn]
            off = simplify(addr - r.base)
            f = And(ULE(nn, r.size), ULE(off, r.size - nn))
            if g:
                f = Implies(g[0], f)
            self.oblige(st, 'mem', '%s in bounds of %s' % (what, r.name.split('#')[0]), f)
            best = (r, off)
        else:
            self.oblige(st, 'mem', '%s in bounds of %s' % (what, best[0].name.split('#')[0]), BoolVal(True))
        r, off = best
        inf = st.info[r.name]
        p = inf['live'] and (inf['write'] if write else inf['read'])
        if callable(p):
            p = p(self, st, r, off, nn, write)
        if p is not True:
            f = BoolVal(bool(p)) if not z3.is_expr(p) else p
            if g:
                f = Implies(g[0], f)
            kind = 'perm-w' if write else 'perm-r'
            if inf['live'] is False:
                kind = 'uaf'
            self.oblige(st, kind, '%s: %s permission on %s' % (what, 'write' if write else 'read', r.name.split('#')[0]), f)
        else:
            self.oblige(st, 'perm-w' if write else 'perm-r', '%s permitted' % what, BoolVal(True))
        return best

    # trap: the release build's out-of-range idiom *((T*)1)
    def is_trap(self, addr):
        c = const_of(simplify(addr))
        return c is not None and c < 4096

    def load(self, st, addr, n, what='load'):
        if self.scev:
            return self.fresh('scev', 8 * n)
        r, off = self.resolve(st, addr, n, False, what)
        if r is None:
            return self.fresh('bad', 8 * n)
        return self.reader(st).load(st.mem[r.name], off, n)

    def store(self, st, addr, n, val, what='store'):
        if self.scev:
            return
        r, off = self.resolve(st, addr, n, True, what)
        if r is None:
            return
        self.put(st, r, off, n, val)

    def put(self, st, r, off, n, val):
        st.mem[r.name] = Store(st.mem[r.name], off, n, val)

    # -- values ----------------------------------------------------------
    def width(self, ty):
        ty = ir.resolve(ty)
        if isinstance(ty, ir.IntTy):
            return ty.w
        if isinstance(ty, ir.PtrTy):
            return 64
        if isinstance(ty, ir.FloatTy):
            return 8 * ir.FLOATS[ty.k]
        raise EngineError('width %r' % ty)

    def global_addr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs:
            b = self.globreg.get(name)
            if b is None:
                b = BitVec('fn_' + name, 64)
                self.globreg[name] = b
                self.keep.append(b)
            return b
        for rn, r in st.regions.items():
            if r.tag.get('global') == name:
                return r.base
        ty, init, const = self.mod.globals[name]
        if self.scev:
            return self.fresh('glob')
        try:
            size = ir.size_of(ty)
        except Exception:
            size = 1
        content = None
        hook = self.glob_init.get(name)
        if const and init is not None and hook is None:
            bs = self.init_bytes(st, ty, init)
            if bs is not None:
                content = Base(const_content(bs))
        r = self.new_region(st, 'glob' + name.replace('@', '_'), size, 'global', content,
                            dict(write=not const), tag={'global': name})
        if hook:
            hook(self, st, r)
        return r.base

    def init_bytes(self, st, ty, v):
        ty = ir.resolve(ty)
        n = ir.size_of(ty)
        if v[0] == 'str':
            return [BitVecVal(b, 8) for b in v[1]]
        if v[0] in ('zero', 'null'):
            return [BitVecVal(0, 8)] * n
        if v[0] in ('undef', 'poison'):
            return [self.fresh('undef', 8) for _ in range(n)]
        if v[0] == 'int':
            return [BitVecVal((v[1] >> (8 * i)) & 255, 8) for i in range(n)]
        if v[0] == 'agg':
            out = [BitVecVal(0, 8)] * n
            if isinstance(ty, ir.ArrTy):
                s = ir.size_of(ty.el)
                for i, (t, x) in enumerate(v[1]):
                    b = self.init_bytes(st, t, x)
                    if b is None:
                        return None
                    out[i * s:(i + 1) * s] = b
            else:
                offs, _ = ir.layout(ty)
                for o, (t, x) in zip(offs, v[1]):
                    b = self.init_bytes(st, t, x)
                    if b is None:
                        return None
                    out[o:o + len(b)] = b
            return out
        if v[0] in ('global', 'cexpr'):
            e = self.val(st, ty, v)
            return [simplify(Extract(8 * i + 7, 8 * i, e)) for i in range(n)]
        return None

    def val(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise EngineError('use of undefined %s in %s' % (v[1], self.where(st)))
        if k == 'int':
            if v[2] == 1:
                return BoolVal(bool(v[1] & 1))
            return BitVecVal(v[1], v[2])
        if k == 'null':
            return bv(0)
        if k in ('undef', 'poison'):
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'global':
            return self.global_addr(st, v[1])
        if k == 'float':
            return self.floatconst(ty, v[1])
        if k == 'agg':
            return tuple(self.val(st, t, x) for t, x in v[1])
        if k == 'cexpr':
            if v[1] == 'cast':
                _, _, op, t1, x, t2 = v
                return self.cast(st, op, t1, self.val(st, t1, x), t2)
            if v[1] == 'gep':
                _, _, bt, pv, idx = v
                return self.gep(st, bt, self.val(st, ir.PTR, pv), [(t, self.val(st, t, x)) for t, x in idx])
            if v[1] == 'bin':
                _, _, op, t1, a, b = v
                return self.binop(st, op, t1, self.val(st, t1, a), self.val(st, t1, b), ())
        if k == 'meta':
            return None
        raise EngineError('value %r' % (v,))

    def undef(self, ty):
        ty = ir.resolve(ty)
        if isinstance(ty, ir.StructTy):
            return tuple(self.undef(t) for t in ty.els)
        if isinstance(ty, ir.ArrTy):
            return tuple(self.undef(ty.el) for _ in range(ty.n))
        w = self.width(ty)
        return self.fresh('undef', 'bool' if w == 1 and isinstance(ty, ir.IntTy) else w)

    def zero(self, ty):
        ty = ir.resolve(ty)
        if isinstance(ty, ir.StructTy):
            return tuple(self.zero(t) for t in ty.els)
        if isinstance(ty, ir.ArrTy):
            return tuple(self.zero(ty.el) for _ in range(ty.n))
        w = self.width(ty)
        return BoolVal(False) if w == 1 and isinstance(ty, ir.IntTy) else BitVecVal(0, w)

    def floatconst(self, ty, t):
        ty = ir.resolve(ty)
        w = 8 * ir.FLOATS[ty.k]
        if t.startswith('0x') and t[2] not in 'KLMHR':
            v = int(t, 16)
            if w == 64:
                return BitVecVal(v, 64)
            if w == 32:
                import struct
                d = struct.unpack('<d', struct.pack('<Q', v))[0]
                return BitVecVal(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        import struct
        try:
            d = float(t)
        except ValueError:
            return self.fresh('fconst', w)
        if w == 64:
            return BitVecVal(struct.unpack('<Q', struct.pack('<d', d))[0], 64)
        if w == 32:
            return BitVecVal(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        return self.fresh('fconst', w)

    def cast(self, st, op, t1, x, t2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            w = self.width(t2)
            if z3.is_bool(x):
                return x
            if x.size() == w:
                return x
            if x.size() > w:
                return simplify(Extract(w - 1, 0, x))
            return simplify(ZeroExt(w - x.size(), x))
        if op == 'trunc':
            w = self.width(t2)
            if w == 1:
                return simplify(Extract(0, 0, x) == BitVecVal(1, 1))
            return simplify(Extract(w - 1, 0, x))
        if op in ('zext', 'sext'):
            w = self.width(t2)
            if z3.is_bool(x):
                one = BitVecVal(1 if op == 'zext' else -1, w)
                return simplify(If(x, one, BitVecVal(0, w)))
            if op == 'sext' and w == 64 and not self.scev and const_of(x) is None and self.decide(st, x >= 0) is True:
                op = 'zext'
            return simplify(ZeroExt(w - x.size(), x) if op == 'zext' else SignExt(w - x.size(), x))
        if op in ('fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            w = self.width(t2)
            if z3.is_bool(x):
                x = If(x, BitVecVal(1, 8), BitVecVal(0, 8))
            f = z3.Function('%s_%d_%d' % (op, x.size(), w), z3.BitVecSort(x.size()), z3.BitVecSort(w))
            return f(x)
        raise EngineError('cast ' + op)

    def gep(self, st, bt, base, idx):
        a = base
        t = bt
        first = True
        off = 0
        for it, iv in idx:
            if first:
                s = ir.size_of(t)
                first = False
            else:
                rt = ir.resolve(t)
                if isinstance(rt, ir.StructTy):
                    c = const_of(simplify(iv))
                    off += ir.layout(rt)[0][c]
                    t = rt.els[c]
                    continue
                t = rt.el
                s = ir.size_of(t)
            if iv.size() < 64:
                iv = SignExt(64 - iv.size(), iv)
            c = const_of(simplify(iv))
            if c is not None:
                if c >= 1 << 63:
                    c -= 1 << 64
                off += c * s
            else:
                a = a + iv * s if s != 1 else a + iv
        if off:
            a = a + bv(off)
        return simplify(a)

    def binop(self, st, op, ty, a, b, flags, chk=True):
        if isinstance(a, tuple):
            raise EngineError('aggregate binop')
        if z3.is_bool(a):
            if op == 'and':
                return simplify(And(a, b))
            if op == 'or':
                return simplify(Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simplify(z3.Xor(a, b))
            if op == 'mul':
                return simplify(And(a, b))
            raise EngineError('i1 ' + op)
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            w = a.size()
            f = z3.Function('%s_%d' % (op, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
            return f(a, b)
        if chk and self.check_nsw and 'nsw' in flags:
            if op == 'add':
                self.oblige(st, 'ub', 'signed add does not overflow',
                            And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
            elif op == 'sub':
                self.oblige(st, 'ub', 'signed sub does not overflow',
                            And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
            elif op == 'mul':
                self.oblige(st, 'ub', 'signed mul does not overflow',
                            And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            if chk:
                self.oblige(st, 'ub', 'divisor is not zero', b != 0)
                if op[0] == 's':
                    w = a.size()
                    self.oblige(st, 'ub', 'signed division does not overflow',
                                Not(And(a == BitVecVal(1 << (w - 1), w), b == BitVecVal(-1, w))))
            r = {'udiv': lambda: UDiv(a, b), 'sdiv': lambda: a / b, 'urem': lambda: URem(a, b),
                 'srem': lambda: SRem(a, b)}[op]()
            hk = self.hooks.get('div')
            if hk:
                r2 = hk(self, st, op, a, b)
                if r2 is not None:
                    r = r2
        elif op in ('shl', 'lshr', 'ashr'):
            if chk and const_of(b) is None:
                self.oblige(st, 'ub', 'shift amount in range', ULT(b, BitVecVal(a.size(), b.size())))
            r = {'shl': lambda: a << b, 'lshr': lambda: LShR(a, b), 'ashr': lambda: a >> b}[op]()
            if op == 'lshr' and not self.scev:
                return self.whole(st, simplify(r))
        elif op in ('and', 'or', 'xor'):
            p, q = truth(a), truth(b)
            if p is not None and q is not None and not (is_bv_value(a) and is_bv_value(b)):
                # integers that are 0 or 1
                c = And(p, q) if op == 'and' else Or(p, q) if op == 'or' else z3.Xor(p, q)
                r = If(c, BitVecVal(1, a.size()), BitVecVal(0, a.size()))
            else:
                r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
        else:
            raise EngineError('binop ' + op)
        return simplify(r)

    def whole(self, st, r):
        """the low bits of a number that has no others are the number"""
        if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_CONCAT and r.num_args() == 2 and const_of(r.arg(0)) == 0:
            x = r.arg(1)
            if x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == 0 and x.arg(0).size() <= r.size():
                n, y = x.size(), x.arg(0)
                if self.decide(st, ULT(y, BitVecVal(1 << n, y.size()))) is True:
                    return simplify(ZeroExt(r.size() - y.size(), y)) if y.size() < r.size() else y
        return r

    def icmp(self, pred, a, b):
        if z3.is_bool(a):
            if pred == 'eq':
                return simplify(a == b)
            if pred == 'ne':
                return simplify(z3.Xor(a, b))
            one, zero = BitVecVal(1, 1), BitVecVal(0, 1)
            a, b = If(a, one, zero), If(b, one, zero)
        if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and pred in QUOT:
            # x / c < k  iff  x < c * k
            c, k = const_of(a.arg(1)), const_of(b)
            if c and k is not None and c * (k + 1) < 1 << a.size():
                x, w = a.arg(0), a.size()
                lo, hi = BitVecVal(c * k, w), BitVecVal(c * (k + 1), w)
                return simplify({'eq': lambda: And(UGE(x, lo), ULT(x, hi)), 'ne': lambda: Or(ULT(x, lo), UGE(x, hi)),
                                 'ult': lambda: ULT(x, lo), 'uge': lambda: UGE(x, lo), 'ule': lambda: ULT(x, hi),
                                 'ugt': lambda: UGE(x, hi)}[pred]())
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: ULT(a, b), 'ule': lambda: ULE(a, b),
             'ugt': lambda: UGT(a, b), 'uge': lambda: UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return simplify(r)

    # -- running ---------------------------------------------------------
    def call_fn(self, st, name, args, ret=None):
        f = self.mod.funcs.get(self.mod.aliases.get(name, name))
        if f is None or not f.defined:
            raise EngineError('no body for ' + name)
        self.executed.add(f.name)
        fr = Frame(f, {})
        for (t, n), a in zip(f.params, args):
            fr.env[n] = a
        fr.ret = ret
        st.frames.append(fr)
        if len(st.frames) > 60:
            raise EngineError('recursion')

    def run_entry(self, st, name, args):
        self.call_fn(st, name, args)
        return self.run([st], None, len(st.frames) - 1)

    def call_sync(self, st, name, args):
        """run a real function to completion from state st: -> list of final states (frames popped)."""
        d = len(st.frames)
        self.call_fn(st, name, args)
        outs = []
        for kind, s in self.run([st], None, d):
            outs.append(s)
        return outs

    def run(self, states, stop, depth):
        """execute until frame depth `depth` is reached again (function returned) or stop triggers."""
        out = []
        work = list(states)
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise EngineError('time budget exhausted')
            r = self.step_path(st, stop, depth, work)
            if r is not None:
                out.append(r)
                if len(out) > 5000:
                    raise EngineError('path explosion')
        return out

    def step_path(self, st, stop, depth, work):
        """run one state until it ends; forks are pushed on work."""
        while True:
            if st.outcome:
                return ('final', st)
            if st.end:
                k, st.end = st.end, None
                return (k, st)
            if len(st.frames) <= depth:
                return ('final', st)
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk.ins[fr.idx]
            op = ins.op
            if op == 'cbr' and not self.scev and not self.probing:
                m = self.merge_branch(st, ins, stop, depth)
                if m is not None:
                    st = m
                    continue
            if op in ('br', 'cbr', 'switch'):
                nxt = []
                for (s, tgt) in self.branch(st, ins):
                    nxt.extend(self.goto(s, tgt, stop, depth))
                if not nxt:
                    return None
                work.extend(nxt[1:])
                st = nxt[0]
                continue
            if op == 'ret':
                v = self.val(st, ins.ty, ins.a[0]) if ins.a[0] is not None else None
                for rn in fr.stk:
                    if rn in st.regions:
                        del st.regions[rn]
                        del st.info[rn]
                        st.mem.pop(rn, None)
                st.frames.pop()
                if len(st.frames) <= depth:
                    st.retval = v
                    return ('final', st)
                up = st.frames[-1]
                if fr.ret is not None:
                    up.env[fr.ret] = v
                if stop and len(st.frames) < stop[0]:
                    return ('exit', st)
                continue
            if op == 'unreachable':
                self.oblige(st, 'ub', 'unreachable is not reached', BoolVal(False))
                st.outcome = 'unreachable'
                return ('final', st)
            fr.idx += 1
            more = self.exec(st, ins)
            if more is not None:
                # list of successor states (first one continues)
                if not more:
                    return None
                work.extend(more[1:])
                st = more[0]

    MEMOPS = ('@llvm.memcpy.', '@llvm.memmove.', '@llvm.memset.', '@memcpy', '@memmove', '@memset')

    def mergeable(self, fn, b, j):
        """block b is straight-line, has no other effect than block copies/fills or one store, and ends at j"""
        key = (fn.name, b, j)
        r = self.__dict__.setdefault('mergecache', {}).get(key)
        if r is not None:
            return r
        blk = fn.blocks[b]
        r = False
        lp = ir.loops(fn)
        if not blk.phis and blk.ins and blk.ins[-1].op == 'br' and blk.ins[-1].a[0] == j and j not in lp and b not in lp:
            mem = st_ = 0
            r = True
            for x in blk.ins[:-1]:
                if x.op in ('gep', 'cast', 'icmp', 'select', 'load', 'freeze') or \
                        x.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'bin', 'binop'):
                    continue
                if x.op == 'store':
                    st_ += 1
                    continue
                if x.op == 'call' and callee_name(x).startswith(self.MEMOPS):
                    mem += 1
                    continue
                if x.op == 'call' and callee_name(x).startswith(('@llvm.lifetime', '@llvm.dbg')):
                    continue
                r = False
                break
            if mem + st_ != 1:
                r = False
        self.mergecache[key] = r
        return r

    def merge_branch(self, st, ins, stop, depth):
        fr = st.frames[-1]
        fn = fr.fn
        t, f = ins.a[1], ins.a[2]
        if self.mergeable(fn, t, f):
            b, j, pos = t, f, True
        elif self.mergeable(fn, f, t):
            b, j, pos = f, t, False
        else:
            return None
        if stop and len(st.frames) == stop[0] and (b not in stop[2] or j not in stop[2] or j == stop[1]):
            return None
        c = self.val(st, None, ins.a[0])
        v, c = tb(c)
        if v is not None:
            return None
        k = c.get_id()
        if k in st.known and st.known[k][0] is not None:
            return None
        g = c if pos else simplify(Not(c))
        a = self.P.check(st.pc, [c], quick=True)[0] != 'unsat'
        nb = self.P.check(st.pc, [Not(c)], quick=True)[0] != 'unsat'
        if not (a and nb):
            return None
        nobs, nf = len(self.obs), self.fails
        s = st.clone()
        s.pc.append(g)
        s.ghost['_memop'] = []
        s.frames[-1].prev, s.frames[-1].block, s.frames[-1].idx = fr.block, b, 0
        sf = s.frames[-1]
        blk = fn.blocks[b]

        def bail():
            del self.obs[nobs:]
            self.fails = nf
            return None
        for x in blk.ins[:-1]:
            if x.op in ('load', 'store') and x.flags[0]:
                return bail()
            more = self.exec(s, x)
            if more is not None:
                if len(more) != 1:
                    return bail()
                s = more[0]
            if s.outcome:
                return bail()
        if set(s.regions) != set(st.regions) or s.info != st.info or len(s.frames) != len(st.frames) or \
                len(s.schemas) != len(st.schemas):
            return bail()
        ops = s.ghost.pop('_memop')
        ch = [r for r in s.mem if s.mem[r] is not st.mem[r]]
        if len(ch) > 1:
            return bail()
        for r in ch:
            n1, n0 = s.mem[r], st.mem[r]
            if isinstance(n1, (Copy, Fill)) and n1.prev is n0 and ops and ops[0][0] is n1:
                # the guard only skips what would be a no-op, or becomes the length
                _, n, same = ops[0]
                bad = [Not(g), n != 0]
                if same is not None:
                    bad.append(Not(same))
                res, _ = self.P.check(st.pc, bad)
                if res != 'unsat':
                    nn = simplify(If(g, n1.n if z3.is_expr(n1.n) else bv(n1.n), bv(0)))
                    if isinstance(n1, Copy):
                        s.mem[r] = Copy(n0, n1.off, nn, n1.src, n1.soff)
                    else:
                        s.mem[r] = Fill(n0, n1.off, nn, n1.byte)
            elif isinstance(n1, Store) and n1.prev is n0 and st.regions[r].kind == 'stack':
                oldv = self.reader(st).load(n0, n1.off, n1.n)
                s.mem[r] = Store(n0, n1.off, n1.n, simplify(If(g, n1.val, oldv)))
            else:
                return bail()
        base = len(st.pc)
        if len(s.pc) < base or any(x is not y for x, y in zip(s.pc[:base], st.pc)):
            return bail()
        added = s.pc[base:]
        i = next((i for i, x in enumerate(added) if x is g), 0)
        s.pc = list(st.pc) + [simplify(Implies(g, x)) for n_, x in enumerate(added) if n_ != i]
        s.known = st.known
        st2 = s
        vals = []
        for ph in fn.blocks[j].phis:
            d = dict((bb, vv) for vv, bb in ph.a)
            x = self.val(s, ph.ty, d[b])
            y = self.val(st, ph.ty, d[fr.block])
            if isinstance(x, tuple):
                return bail()
            vals.append((ph.res, simplify(If(g, x, y))))
        for r, x in vals:
            sf = s.frames[-1]
            sf.env[r] = x
        s.frames[-1].prev, s.frames[-1].block, s.frames[-1].idx = b, j, 0
        self.merges = getattr(self, 'merges', 0) + 1
        return st2

    def branch(self, st, ins):
        if ins.op == 'br':
            return [(st, ins.a[0])]
        if ins.op == 'cbr':
            c = self.val(st, None, ins.a[0])
            return [(s, ins.a[1] if b else ins.a[2]) for b, s in self.fork(st, c)]
        v, d, cases = ins.a
        x = self.val(st, ins.ty, v)
        out = []
        cur = st
        for cv, tgt in cases:
            c = x == self.val(cur, ins.ty, cv)
            fk = self.fork(cur, c)
            cur = None
            for b, s in fk:
                if b:
                    out.append((s, tgt))
                else:
                    cur = s
            if cur is None:
                break
        if cur is not None:
            out.append((cur, d))
        return out

    def goto(self, st, tgt, stop, depth):
        """-> states after taking the edge to tgt (with .end set if the edge ends the enclosing run)"""
        fr = st.frames[-1]
        src = fr.block
        fn = fr.fn
        blk = fn.blocks[tgt]
        vals = []
        for ph in blk.phis:
            for v, b in ph.a:
                if b == src:
                    vals.append((ph.res, self.val(st, ph.ty, v)))
                    break
            else:
                raise EngineError('phi')
        lp = ir.loops(fn)
        at = stop and len(st.frames) == stop[0]
        if at and tgt == stop[1]:
            st.ghost['_next'] = dict(vals)
            st.end = 'back'
            return [st]
        for r, v in vals:
            fr.env[r] = v
        fr.prev, fr.block, fr.idx = src, tgt, 0
        if at and tgt not in stop[2]:
            st.end = 'exit'
            return [st]
        if tgt in lp:
            if src not in lp[tgt]:
                fr.unroll.pop(tgt, None)
                return self.enter_loop(st, fn, tgt, lp[tgt], stop, depth)
            n = fr.unroll.get(tgt, 0) + 1
            fr.unroll[tgt] = n
            lim = self.unroll_limit if not self.scev else 2
            if n > lim:
                if self.scev or self.probing:
                    return []
                if self.feasible(st):
                    raise EngineError('loop %s in %s has no derivable invariant and does not end after %d unrollings'
                                      % (tgt, fn.name, lim))
                return []
        return [st]

    def enter_loop(self, st, fn, header, body, stop, depth):
        if self.scev:
            st.frames[-1].unroll[header] = 0
            return [st]
        uc = self.loop_contract_for(fn, header)
        if uc is not None:
            outs = uc(self, st, fn, header, body, depth)
        elif self.env_loops and self.meets_environment(fn, body):
            if self.probing:
                raise EngineError('a loop that other threads take part in, inside another')
            outs = self.env_loop(st, fn, header, body, depth)
        else:
            saved = (len(self.obs), self.fails)
            try:
                outs = self.summarise(st.clone(), fn, header, body, depth)
            except SumFail as e:
                if os.environ.get('VDEBUG'):
                    print('   [loop %s %s: %s]' % (short(fn.name), header, e))
                del self.obs[saved[0]:]
                self.fails = saved[1]
                self.loopinfo.append((fn.name, header, 'unrolled: %s' % e))
                st.frames[-1].unroll[header] = 0
                return [st]
        # outs: states positioned after the loop (in an exit block, or returned, or final)
        for s in outs:
            if not s.outcome and len(s.frames) > depth and stop:
                if len(s.frames) < stop[0]:
                    s.end = 'exit'
                elif len(s.frames) == stop[0]:
                    b = s.frames[-1].block
                    if b == stop[1]:
                        raise SumFail('inner loop exits straight to the outer header')
                    if b not in stop[2]:
                        s.end = 'exit'
        return outs

    def loop_contract_for(self, fn, header):
        for pat, uc in self.loop_contracts.items():
            if pat in fn.name:
                return uc
        return None

    # -- loops that wait or retry: other threads decide how often they run -----
    def meets_environment(self, fn, body, seen=None):
        """whether the blocks (or what they call) use atomics, or call what has no body here"""
        seen = set() if seen is None else seen
        for b in body if body is not None else fn.blocks:
            for x in fn.blocks[b].ins:
                if x.op in ('atomicrmw', 'cmpxchg') or x.op == 'load' and x.flags and x.flags[0]:
                    return True
                if x.op in ('call', 'invoke'):
                    nm = callee_name(x)
                    if not nm:
                        return True
                    if nm.startswith('@llvm.') or nm in self.contracts and nm not in self.env_calls:
                        continue
                    f = self.mod.funcs.get(self.mod.aliases.get(nm, nm))
                    if f is None or not f.defined:
                        return True
                    if f.name not in seen:
                        seen.add(f.name)
                        if self.meets_environment(f, None, seen):
                            return True
        return False

    def env_loop(self, st, fn, header, body, depth):
        """any number of iterations, nothing known of what they changed; every iteration keeps loop_sig and
        everything it does not change.  -> states after the loop"""
        d = len(st.frames)
        changed = set()
        while True:
            p = st.clone()
            cands = {}
            for ph in fn.blocks[header].phis:
                v = p.frames[-1].env[ph.res]
                if isinstance(v, tuple):
                    raise EngineError('aggregate in a waiting loop')
                x = self.phi_hook(self, p, ph, v) if self.phi_hook else None
                if x is not None:
                    cands[ph.res] = x
                else:
                    x = self.fresh('any', 'bool' if z3.is_bool(v) else v.size())
                p.frames[-1].env[ph.res] = x
            for rn in changed:
                f = self.freshfn('any')
                p.mem[rn] = Base(lambda o, f=f: f(o))
            mem0, info0, sig0 = dict(p.mem), {k: dict(v) for k, v in p.info.items()}, self.loop_sig(p)
            saved = (len(self.obs), self.fails)
            ends = self.run([p], (d, header, body), depth)
            new = set()
            for k, s in ends:
                if k == 'back':
                    for rn in mem0:
                        if rn in s.mem and s.mem[rn] is not mem0[rn] and rn not in changed:
                            new.add(rn)
            if new:
                del self.obs[saved[0]:]
                self.fails = saved[1]
                changed |= new
                continue
            outs = []
            for k, s in ends:
                if k != 'back':
                    outs.append(s)
                    continue
                same = self.loop_sig(s) == sig0 and all(s.info.get(rn) == info0[rn] for rn in mem0 if rn in info0)
                self.oblige(s, 'loop', 'an iteration of a waiting loop leaves everything as it was', BoolVal(bool(same)))
                for r in cands:
                    self.oblige(s, 'loop', 'what is tried again was read anew',
                                BoolVal(self.phi_hook(self, s.clone(), None, s.ghost['_next'][r]) is not None))
            return outs

    # -- loop summaries ----------------------------------------------------
    def summarise(self, st, fn, header, body, depth):
        d = len(st.frames)
        fr = st.frames[-1]
        phis = fn.blocks[header].phis
        inits = {p.res: fr.env[p.res] for p in phis}
        # 1. induction variables
        p = st.clone()
        xs = {}
        for ph in phis:
            v = inits[ph.res]
            if isinstance(v, tuple):
                raise SumFail('aggregate phi')
            xs[ph.res] = self.fresh('x', 'bool' if z3.is_bool(v) else v.size())
            p.frames[-1].env[ph.res] = xs[ph.res]
        self.scev += 1
        try:
            ends = self.run([p], (d, header, body), depth)
        except EngineError as e:
            raise SumFail(str(e))
        finally:
            self.scev -= 1
        backs = [s for k, s in ends if k == 'back']
        if not backs:
            raise SumFail('no back edge')
        step = {}
        for r in xs:
            c = None
            for s in backs:
                nx = s.ghost['_next'][r]
                if z3.is_bool(nx):
                    raise SumFail('boolean phi')
                dc = diff_const(nx, xs[r])
                if dc is None and not isinstance(c, int):
                    # a step that is the same in every iteration
                    dc = simplify(nx - xs[r])
                    if self.names(dc) & self.names(*xs.values()) or self.mentions_fresh(dc, st, xs[r]) or \
                            c is not None and not c.eq(dc):
                        raise SumFail('phi %s is not an induction variable' % r)
                elif dc is None or (c is not None and (not isinstance(c, int) or c != dc)):
                    raise SumFail('phi %s is not an induction variable' % r)
                c = dc
            step[r] = c
        k = self.fresh('k', 64)
        self.P.lia.range[k.decl().name()] = [0, MAXK]

        def closed(kk):
            out = {}
            for r, c in step.items():
                v = inits[r]
                w = v.size()
                if isinstance(c, int) and c == 0:
                    out[r] = v
                else:
                    kw = kk if w == 64 else Extract(w - 1, 0, kk)
                    out[r] = simplify(v + kw * (BitVecVal(c, w) if isinstance(c, int) else c))
            return out
        # 2. effects of one iteration (a guess, checked below)
        p = st.clone()
        p.frames[-1].env.update(closed(k))
        p.pc.append(ULT(k, bv(MAXK)))
        n0 = len(p.pc)
        self.probing += 1
        try:
            ends = self.run([p], (d, header, body), depth)
        except EngineError as e:
            raise SumFail(str(e))
        finally:
            self.probing -= 1
        backs = [s for kk, s in ends if kk == 'back']
        if not backs:
            raise SumFail('no back edge')
        writes = {}
        conds = []
        for s in backs:
            if {r: (i['live'], i.get('tokens')) for r, i in s.info.items() if r in st.info} != \
               {r: (i['live'], i.get('tokens')) for r, i in st.info.items()}:
                raise SumFail('ownership changes inside the loop')
            w = {}
            for rn, node in s.mem.items():
                if rn not in st.mem:
                    continue
                suf = []
                x = node
                while x is not st.mem[rn]:
                    suf.append(x)
                    x = x.prev
                suf.reverse()
                if suf:
                    w[rn] = suf
            conds.append(And(*s.pc[n0:]) if len(s.pc) > n0 else BoolVal(True))
            if w:
                if len(backs) > 1:
                    raise SumFail('several iteration paths that store')
                writes = w
        seqs = {}
        rd = self.reader(backs[0])
        for rn, suf in writes.items():
            lst = []
            for nd in suf:
                if isinstance(nd, Copy):
                    n = const_of(simplify(nd.n))
                    if n is None or n > 64 or n == 0:
                        raise SumFail('copy of symbolic length inside a loop')
                    val = rd.load(nd.src, nd.soff, n)
                    off = nd.off
                elif isinstance(nd, Fill):
                    n = const_of(simplify(nd.n))
                    if n is None or n > 64 or n == 0:
                        raise SumFail('fill of symbolic length inside a loop')
                    val = simplify(Concat(*([nd.byte] * n))) if n > 1 else nd.byte
                    off = nd.off
                elif isinstance(nd, Store):
                    n, val, off = nd.n, nd.val, nd.off
                else:
                    raise SumFail('nested summary')
                o1 = z3.substitute(off, (k, k + 1))
                sc = diff_const(o1, off)
                if sc is None:
                    sc = self.semantic_const(backs[0], o1 - off)
                if sc is None or abs(sc) < n:
                    raise SumFail('store without a usable stride')
                o0 = simplify(z3.substitute(off, (k, bv(0))))
                lst.append((o0, sc, n, val))
            seqs[rn] = lst

        def mem_at(kk):
            m = dict(st.mem)
            for rn, lst in seqs.items():
                node = m[rn]
                for (o0, sc, n, val) in lst:
                    node = Seq(node, o0, sc, n, (lambda j, val=val: simplify(z3.substitute(val, (k, j)))), kk)
                m[rn] = node
            return m
        # 3. the real iteration, from an arbitrary k
        q = st.clone()
        q.frames[-1].env.update(closed(k))
        q.mem = mem_at(k)
        q0 = dict(q.mem)
        q.pc.append(ULT(k, bv(MAXK)))
        back_guess = Or(*conds) if len(conds) > 1 else conds[0]
        parts = list(back_guess.children()) if z3.is_and(back_guess) else [back_guess]
        usable = []
        for c in parts:
            if self.mentions_fresh(c, st, k):
                continue
            if writes and self.reads_memory(c):
                continue
            usable.append(c)
        guess = And(*usable) if usable else BoolVal(True)

        def sub(e, j):
            return simplify(z3.substitute(e, (k, j)))
        q.pc.append(Or(k == 0, sub(guess, k - 1)))
        for j in self.termination_points(usable, k):
            q.pc.append(Implies(ULT(j, k), sub(guess, j)))
        n1 = len(q.pc)
        ends = self.run([q], (d, header, body), depth)
        backs = [s for kk, s in ends if kk == 'back']
        outs = [s for kk, s in ends if kk != 'back']
        after = mem_at(simplify(k + 1))
        bconds = []
        for s in backs:
            nx = s.ghost.pop('_next')
            want = closed(simplify(k + 1))
            for r in step:
                same = not isinstance(step[r], int) and const_of(simplify(nx[r] - want[r], som=True)) == 0
                self.oblige(s, 'loop', 'loop %s: closed form of %s is preserved' % (short(fn.name), r),
                            BoolVal(True) if same else nx[r] == want[r])
            if {r: (i['live'], i.get('tokens')) for r, i in s.info.items() if r in st.info} != \
               {r: (i['live'], i.get('tokens')) for r, i in st.info.items()}:
                raise SumFail('ownership changes inside the loop')
            bc = And(*s.pc[n1:]) if len(s.pc) > n1 else BoolVal(True)
            bconds.append(bc)
            for rn in st.mem:
                if s.mem.get(rn) is after[rn] or (rn not in seqs and s.mem.get(rn) is st.mem[rn]):
                    continue
                lst = seqs.get(rn, [])
                node = s.mem.get(rn)
                if len(lst) == 1 and isinstance(node, Store) and node.prev is q0[rn] and node.n == lst[0][2] and \
                        abs(lst[0][1]) >= node.n:
                    # one store per iteration: it is the k-th element of the sequence
                    (o0, sc, n, val) = lst[0]
                    bad = Or(node.off != o0 + k * bv(sc % (1 << 64)), node.val != val)
                    if self.P.check(s.pc, [bad])[0] == 'unsat':
                        self.obs.append(Ob('%s/loop %s: memory invariant preserved' % (self.entry, short(fn.name)),
                                           'loop', 'ok', None, None, self.where(s)))
                        continue
                if self.periodic(s, lst, node, q0.get(rn), k):
                    self.obs.append(Ob('%s/loop %s: memory invariant preserved' % (self.entry, short(fn.name)),
                                       'loop', 'ok', None, None, self.where(s)))
                    continue
                o = self.ranged(s, 'o', 0, 1 << 34)
                rd = self.reader(s)
                a = rd.byte(s.mem[rn], o)
                b = rd.byte(after[rn], o)
                r_, _ = self.P.check(s.pc, [ULT(o, st.regions[rn].size) if rn in st.regions else BoolVal(True), a != b])
                if r_ != 'unsat':
                    raise SumFail('memory invariant of the loop is not inductive')
                self.obs.append(Ob('%s/loop %s: memory invariant preserved' % (self.entry, short(fn.name)), 'loop', 'ok',
                                   None, None, self.where(s)))
        if not bconds:
            bcond = BoolVal(False)
        else:
            bcond = Or(*bconds) if len(bconds) > 1 else bconds[0]
        if not self.mentions_fresh(bcond, st, k):
            fn_ = (lambda j, e=bcond: sub(e, j))
            for s in outs:
                s.schemas.append((k, fn_))
        self.loopinfo.append((fn.name, header, 'invariant derived'))
        return outs

    def names(self, *es):
        out = set()
        for e in es:
            out |= freevars(e)
        return out

    def periodic(self, s, lst, node, start, k):
        """several stores per iteration, to separate places of a period of their own: each is the k-th item of its sequence"""
        if len(lst) < 2 or len({x[1] for x in lst}) != 1 or lst[0][1] == 0:
            return False
        sc = lst[0][1]
        spans = []
        for o0, _, n, _ in lst:
            d = diff_const(o0, lst[0][0])
            if d is None:
                return False
            spans.append((d, d + n))
        spans.sort()
        if spans[-1][1] - spans[0][0] > abs(sc) or any(a[1] > b[0] for a, b in zip(spans, spans[1:])):
            return False
        chain = []
        while node is not start:
            if not isinstance(node, Store):
                return False
            chain.append(node)
            node = node.prev
        chain.reverse()
        if len(chain) != len(lst):
            return False
        for nd, (o0, _, n, val) in zip(chain, lst):
            if nd.n != n or diff_const(nd.off, simplify(o0 + k * bv(sc % (1 << 64)))) != 0 or \
                    not simplify(nd.val).eq(simplify(val)) and self.P.check(s.pc, [nd.val != val])[0] != 'unsat':
                return False
        return True

    def mentions_fresh(self, e, st, k):
        """does e mention symbols introduced while executing the iteration (other than k)?"""
        lim = int(str(k).split('!')[-1])
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm and not x.eq(k):
                    try:
                        if int(nm.split('!')[-1]) > lim:
                            return True
                    except ValueError:
                        pass
                if nm.startswith('addr_') and '#' in nm and int(nm.split('#')[-1]) > lim:
                    return True
            stack.extend(x.children())
        return False

    def reads_memory(self, e):
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            stack.extend(x.children())
        return False

    def termination_points(self, conds, k):
        pts = []
        seen = set()
        stack = list(conds)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            kind = x.decl().kind()
            if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ,
                        z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) and x.num_args() == 2 \
                    and z3.is_bv(x.arg(0)):
                a, b = x.arg(0), x.arg(1)
                dd = simplify(a - b)
                d1 = simplify(z3.substitute(dd, (k, k + 1)))
                s = diff_const(d1, dd)
                if s:
                    w = dd.size()
                    if s >= 1 << (w - 1):
                        s -= 1 << w
                    d0 = simplify(z3.substitute(dd, (k, bv(0))))
                    num = simplify(-d0) if s > 0 else d0
                    if w < 64:
                        num = ZeroExt(64 - w, num)
                    a_ = abs(s)
                    j = num if a_ == 1 else (LShR(num, bv(a_.bit_length() - 1)) if a_ & (a_ - 1) == 0 else UDiv(num, bv(a_)))
                    pts.append(simplify(j))
            else:
                stack.extend(x.children())
        return pts

    def semantic_const(self, st, e):
        """is e a constant under the path condition?"""
        r, m = self.P.check(st.pc, [], want_model=True)
        if r != 'sat':
            return None
        c = m.eval(e, model_completion=True)
        if not is_bv_value(c):
            return None
        r, _ = self.P.check(st.pc, [e != c])
        if r != 'unsat':
            return None
        v = c.as_long()
        if v >= 1 << 63:
            v -= 1 << 64
        return v

    def pick(self, st, v):
        # a choice gets a name, so that no term is built on top of both of its arms
        if not self.short or self.scev or not z3.is_bv(v) or v.size() < 32:
            return v
        ext, core = 0, v
        if v.decl().kind() == z3.Z3_OP_CONCAT and v.num_args() == 2 and is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0:
            ext, core = v.arg(0).size(), v.arg(1)
        if core.decl().kind() != z3.Z3_OP_ITE or core.size() < 16 or is_bv_value(core.arg(1)) and is_bv_value(core.arg(2)):
            return v
        c, a, b = core.children()
        n = self.fresh('pick', core.size())
        st.pc += [Or(Not(c), n == a), Or(c, n == b)]
        return simplify(ZeroExt(ext, n)) if ext else n

    # -- instructions ------------------------------------------------------
    def exec(self, st, ins):
        fr = st.frames[-1]
        env = fr.env
        op = ins.op
        if op in ir.BINOPS:
            env[ins.res] = self.pick(st, self.binop(st, op, ins.ty, self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1]),
                                                    ins.flags))
            return None
        if op == 'cast':
            cop, t1, v = ins.a
            env[ins.res] = self.cast(st, cop, t1, self.val(st, t1, v), ins.ty)
            return None
        if op == 'icmp':
            pred, t, a, b = ins.a
            x, y = self.val(st, t, a), self.val(st, t, b)
            if not self.scev and z3.is_bv(x) and x.size() == 64:
                self.separate(st, x, y)
            env[ins.res] = self.icmp(pred, x, y)
            return None
        if op == 'fcmp':
            pred, t, a, b = ins.a
            x, y = self.val(st, t, a), self.val(st, t, b)
            f = z3.Function('fcmp_%s_%d' % (pred, x.size()), x.sort(), y.sort(), z3.BoolSort())
            env[ins.res] = f(x, y)
            return None
        if op == 'fneg':
            x = self.val(st, ins.ty, ins.a[0])
            env[ins.res] = simplify(x ^ BitVecVal(1 << (x.size() - 1), x.size()))
            return None
        if op == 'select':
            c = self.val(st, None, ins.a[0])
            a = self.val(st, ins.ty, ins.a[1])
            b = self.val(st, ins.ty, ins.a[2])
            v, ce = tb(c)
            if v is None and not self.scev:
                v = self.decide(st, ce)
            if v is True:
                env[ins.res] = a
                return None
            if v is False:
                env[ins.res] = b
                return None
            if isinstance(a, tuple) or isinstance(ir.resolve(ins.ty), ir.PtrTy) or self.fork_select and z3.is_bv(a) and not self.scev:
                out = []
                for bb, s in self.fork(st, ce):
                    s.frames[-1].env[ins.res] = a if bb else b
                    out.append(s)
                return out
            if not self.scev and z3.is_bv(a):
                # a choice that makes no difference
                if self.decide(st, Or(ce, a == b)) is True:
                    env[ins.res] = a
                    return None
                if self.decide(st, Or(Not(ce), a == b)) is True:
                    env[ins.res] = b
                    return None
            env[ins.res] = self.pick(st, simplify(If(ce, a, b)))
            return None
        if op == 'gep':
            bt, b, idx = ins.a
            env[ins.res] = self.gep(st, bt, self.val(st, ir.PTR, b), [(t, self.val(st, t, x)) for t, x in idx])
            return None
        if op == 'alloca':
            t, n = ins.a
            cnt = 1
            size = bv(ir.size_of(t))
            if n is not None:
                c = self.val(st, n[0], n[1])
                if c.size() < 64:
                    c = ZeroExt(64 - c.size(), c)
                size = simplify(size * c)
            if self.scev:
                env[ins.res] = self.fresh('alloca')
                return None
            r = self.new_region(st, 'stk', size, 'stack')
            fr.stk.append(r.name)
            env[ins.res] = r.base
            return None
        if op == 'load':
            order = ins.flags[0]
            a = self.val(st, ir.PTR, ins.a[0])
            return self.do_load(st, ins, a, order)
        if op == 'store':
            order = ins.flags[0]
            v = self.val(st, ins.ty, ins.a[0])
            a = self.val(st, ir.PTR, ins.a[1])
            if not self.scev and self.is_trap(a):
                st.outcome = 'trap'
                return [st]
            if order and not self.scev:
                h = self.atomic_hook(st, a)
                if h:
                    return h(self, st, 'store', a, (v, ins.ty), (order,), None)
            self.store_typed(st, ins.ty, a, v)
            return None
        if op == 'atomicrmw':
            k, a, v = ins.a
            a = self.val(st, ir.PTR, a)
            v = self.val(st, ins.ty, v)
            if self.scev:
                env[ins.res] = self.fresh('scev', self.width(ins.ty))
                return None
            h = self.atomic_hook(st, a)
            if h:
                return h(self, st, 'rmw', a, (k, v, ins.ty), ins.flags, ins.res)
            # not shared with anybody: sequential semantics
            n = ir.size_of(ins.ty)
            old = self.load(st, a, n, 'atomicrmw')
            new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'and': lambda: old & v,
                   'or': lambda: old | v, 'xor': lambda: old ^ v}[k]()
            self.store(st, a, n, simplify(new), 'atomicrmw')
            env[ins.res] = old
            return None
        if op == 'cmpxchg':
            a, c, nw = ins.a
            a = self.val(st, ir.PTR, a)
            c = self.val(st, ins.ty, c)
            nw = self.val(st, ins.ty, nw)
            if self.scev:
                env[ins.res] = (self.fresh('scev', self.width(ins.ty)), self.fresh('scevb', 'bool'))
                return None
            h = self.atomic_hook(st, a)
            if h:
                return h(self, st, 'cas', a, (c, nw, ins.ty), ins.flags, ins.res)
            n = ir.size_of(ins.ty)
            old = self.load(st, a, n, 'cmpxchg')
            out = []
            for b, s in self.fork(st, old == c):
                if b:
                    self.store(s, a, n, nw, 'cmpxchg')
                s.frames[-1].env[ins.res] = (old, BoolVal(b))
                out.append(s)
            return out
        if op == 'fence':
            st.ghost.setdefault('fences', []).append(ins.flags[0])
            return None
        if op == 'freeze':
            env[ins.res] = self.val(st, ins.ty, ins.a[0])
            return None
        if op == 'extractvalue':
            v, idx = ins.a
            x = self.val(st, ins.ty, v)
            for i in idx:
                x = x[i]
            env[ins.res] = x
            return None
        if op == 'insertvalue':
            v, t2, v2, idx = ins.a
            x = self.val(st, ins.ty, v)
            y = self.val(st, t2, v2)

            def put(x, idx):
                l = list(x)
                if len(idx) == 1:
                    l[idx[0]] = y
                else:
                    l[idx[0]] = put(l[idx[0]], idx[1:])
                return tuple(l)
            env[ins.res] = put(x, idx)
            return None
        if op in ('call', 'invoke'):
            return self.do_call(st, ins)
        if op == 'asm':
            return None
        raise EngineError('instruction %s: %s' % (op, ins.text))

    def do_load(self, st, ins, a, order):
        env = st.frames[-1].env
        if not self.scev and self.is_trap(a):
            st.outcome = 'trap'
            return [st]
        if order and not self.scev:
            h = self.atomic_hook(st, a)
            if h:
                return h(self, st, 'load', a, (ins.ty,), (order,), ins.res)
        w = self.hooks.get('wild')
        if w and not self.scev and not any(b in st.regions for b in self.bases(simplify(a))):
            env[ins.res] = w(self, st, a, ir.size_of(ins.ty), order)
            return None
        env[ins.res] = self.load_typed(st, ins.ty, a)
        return None

    def atomic_hook(self, st, a):
        a = simplify(a)
        for b in self.bases(a):
            if b in st.regions:
                h = st.regions[b].tag.get('atomic')
                if h:
                    oe = simplify(a - st.regions[b].base)
                    off = const_of(oe)
                    if off is None:
                        for o in h:
                            if self.decide(st, oe == o) is True:
                                off = o
                    if off is not None and off in h:
                        return h[off]
        return None

    def load_typed(self, st, ty, a):
        ty = ir.resolve(ty)
        if isinstance(ty, ir.StructTy):
            offs, _ = ir.layout(ty)
            return tuple(self.load_typed(st, t, simplify(a + o)) for t, o in zip(ty.els, offs))
        if isinstance(ty, ir.ArrTy):
            s = ir.size_of(ty.el)
            return tuple(self.load_typed(st, ty.el, simplify(a + i * s)) for i in range(ty.n))
        if isinstance(ty, ir.IntTy) and ty.w == 1:
            v = self.load(st, a, 1)
            return simplify(Extract(0, 0, v) == BitVecVal(1, 1))
        if isinstance(ty, ir.VecTy):
            raise EngineError('vector load')
        n = ir.size_of(ty)
        if self.short and not self.scev and n >= 8:
            r, off = self.resolve(st, a, n, False, 'load')
            if r is None:
                return self.fresh('bad', self.width(ty))
            v = simplify(self.reader(st).load(st.mem[r.name], off, n))
            if v.num_args() > 2:
                # bytes put together: a store of them is a copy of where they came from
                self.loaded[v.get_id()] = (v, st.mem[r.name], off, n)
        else:
            v = self.load(st, a, n)
        w = self.width(ty)
        if v.size() != w:
            v = simplify(Extract(w - 1, 0, v))
        return v

    def store_typed(self, st, ty, a, v):
        ty = ir.resolve(ty)
        if isinstance(ty, ir.StructTy):
            offs, _ = ir.layout(ty)
            for t, o, x in zip(ty.els, offs, v):
                self.store_typed(st, t, simplify(a + o), x)
            return
        if isinstance(ty, ir.ArrTy):
            s = ir.size_of(ty.el)
            for i, x in enumerate(v):
                self.store_typed(st, ty.el, simplify(a + i * s), x)
            return
        if isinstance(ty, ir.VecTy):
            raise EngineError('vector store')
        if z3.is_bool(v):
            v = If(v, BitVecVal(1, 8), BitVecVal(0, 8))
        n = ir.size_of(ty)
        if v.size() != 8 * n:
            v = ZeroExt(8 * n - v.size(), v)
        v = simplify(v)
        h = self.loaded.get(v.get_id())
        if h is not None and not self.scev and h[3] == n:
            r, off = self.resolve(st, a, n, True, 'store')
            if r is not None:
                st.mem[r.name] = Copy(st.mem[r.name], off, bv(n), h[1], h[2])
            return
        self.store(st, a, n, v)

    def do_call(self, st, ins):
        callee, args, tgt = ins.a
        env = st.frames[-1].env
        if callee[0] != 'global':
            fp = self.val(st, ir.PTR, callee)
            h = self.hooks.get('indirect')
            av = [self.val(st, t, v) for t, v in args]
            if h:
                return self.finish_call(st, ins, h(self, st, fp, av, ins))
            if self.scev:
                if ins.res is not None:
                    env[ins.res] = self.scev_result(ins.ty)
                return None
            for nm, s in self.globreg.items():
                if simplify(fp).eq(s):
                    return self.invoke_named(st, ins, nm, av, tgt)
            raise EngineError('indirect call in ' + self.where(st))
        name = self.mod.aliases.get(callee[1], callee[1])
        av = [self.val(st, t, v) for t, v in args]
        return self.invoke_named(st, ins, name, av, tgt)

    def scev_result(self, ty):
        return None if isinstance(ty, ir.VoidTy) else self.undef(ty)

    def invoke_named(self, st, ins, name, av, tgt):
        env = st.frames[-1].env
        c = self.contracts.get(name)
        if c is None:
            for pat, cc in self.contracts.items():
                if pat.endswith('*') and name.startswith(pat[:-1]):
                    c = cc
                    break
        if c is not None:
            if self.scev:
                if ins.res is not None:
                    env[ins.res] = self.scev_result(ins.ty)
                if getattr(c, 'noreturn', False):
                    st.outcome = 'exit'
                    return [st]
                return None
            return self.finish_call(st, ins, c(self, st, av, ins))
        f = self.mod.funcs.get(name)
        if f is None or not f.defined:
            raise EngineError('call to %s, which has neither a body nor a contract' % name)
        self.call_fn(st, name, av, ins.res)
        return None

    def finish_call(self, st, ins, res):
        """contract result: list of (state, value)"""
        out = []
        for s, v in res:
            if ins.res is not None and not s.outcome:
                s.frames[-1].env[ins.res] = v
            out.append(s)
        return out


def callee_name(x):
    c = x.a[0]
    if isinstance(c, tuple) and len(c) > 1:
        c = c[1]
    return c if isinstance(c, str) else ''


def short(n):
    return n[:70]


def const_content(bs):
    def fn(off):
        c = const_of(simplify(off))
        if c is not None:
            return bs[c] if c < len(bs) else BitVecVal(0, 8)
        e = BitVecVal(0, 8)
        for i in range(len(bs) - 1, -1, -1):
            e = If(off == i, bs[i], e)
        return e
    return fn
