"""Contracts of the functions the verified code calls but that are not part of it.

libc / LLVM memory intrinsics, the Fu block allocator (assumed here, proved against arc.cpp by the
allocator check), the atomic reference count, and the constructors/destructor of an abstract element.
"""
import z3
from z3 import BitVecVal, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, Extract, Concat
from sym import EngineError
from mem import Base, Store, Copy, Fill, bv, const_of, tb

NZ = 0


def c_ignore(eng, st, a, ins):
    return [(st, None)]


def ne0(n):
    v, e = tb(n != 0)
    return v, e


def c_memcpy(eng, st, a, ins, move=False):
    dst, src, n = a[0], a[1], a[2]
    if n.size() < 64:
        n = ZeroExt(64 - n.size(), n)
    n = simplify(n)
    v, nz = ne0(n)
    what = 'memmove' if move else 'memcpy'
    if v is False:
        return [(st, dst)]
    if v is None:
        d = eng.decide(st, nz) if not eng.scev else None
        if d is False:
            return [(st, dst)]
        guard = nz if d is None else None
    else:
        guard = None
    nn = const_of(n) if const_of(n) is not None else n
    rs, so = eng.resolve(st, src, nn, False, what + ' source', guard)
    rd, do = eng.resolve(st, dst, nn, True, what + ' destination', guard)
    if rs is None or rd is None:
        return [(st, dst)]
    if not move and rs is rd:
        eng.oblige(st, 'mem', 'memcpy ranges do not overlap',
                   Or(n == 0, so == do, And(UGE(so - do, n), UGE(do - so, n))))
    if isinstance(nn, int) and nn <= 32:
        val = eng.reader(st).load(st.mem[rs.name], so, nn)
        if eng.short and not eng.scev and simplify(val).num_args() > 2:
            st.mem[rd.name] = Copy(st.mem[rd.name], do, bv(nn), st.mem[rs.name], so)
        else:
            eng.put(st, rd, do, nn, val)
    else:
        node = Copy(st.mem[rd.name], do, n, st.mem[rs.name], so)
        if '_memop' in st.ghost:
            st.ghost['_memop'].append((node, n, so == do if rs is rd else None))
        st.mem[rd.name] = node
    return [(st, dst)]


def c_memmove(eng, st, a, ins):
    return c_memcpy(eng, st, a, ins, True)


def c_memset(eng, st, a, ins):
    dst, b, n = a[0], a[1], a[2]
    if b.size() > 8:
        b = Extract(7, 0, b)
    if n.size() < 64:
        n = ZeroExt(64 - n.size(), n)
    n = simplify(n)
    v, nz = ne0(n)
    if v is False:
        return [(st, dst)]
    guard = None
    if v is None:
        d = eng.decide(st, nz)
        if d is False:
            return [(st, dst)]
        guard = nz if d is None else None
    nn = const_of(n) if const_of(n) is not None else n
    rd, do = eng.resolve(st, dst, nn, True, 'memset', guard)
    if rd is None:
        return [(st, dst)]
    if isinstance(nn, int) and nn <= 32:
        eng.put(st, rd, do, nn, simplify(Concat(*([b] * nn))) if nn > 1 else b)
    else:
        node = Fill(st.mem[rd.name], do, n, b)
        if '_memop' in st.ghost:
            st.ghost['_memop'].append((node, n, None))
        st.mem[rd.name] = node
    return [(st, dst)]


def c_exit(eng, st, a, ins):
    st.outcome = 'exit'
    st.retval = a[0] if a else None
    return [(st, None)]


c_exit.noreturn = True


def c_trap(eng, st, a, ins):
    st.outcome = 'trap'
    return [(st, None)]


c_trap.noreturn = True


def c_assert_fail(eng, st, a, ins):
    eng.oblige(st, 'ub', 'assertion holds', BoolVal(False))
    st.outcome = 'assert'
    return [(st, None)]


c_assert_fail.noreturn = True


def mm(op):
    def f(eng, st, a, ins):
        x, y = a[0], a[1]
        c = {'smax': x > y, 'smin': x < y, 'umax': UGT(x, y), 'umin': ULT(x, y)}[op]
        return [(st, simplify(If(c, x, y)))]
    return f


def c_abs(eng, st, a, ins):
    x = a[0]
    return [(st, simplify(If(x < 0, -x, x)))]


def fsh(left):
    def f(eng, st, a, ins):
        x, y, s = a
        w = x.size()
        s = z3.URem(s, BitVecVal(w, w))
        if left:
            r = If(s == 0, x, (x << s) | z3.LShR(y, BitVecVal(w, w) - s))
        else:
            r = If(s == 0, y, (x << (BitVecVal(w, w) - s)) | z3.LShR(y, s))
        return [(st, simplify(r))]
    return f


def ovf(op):
    def f(eng, st, a, ins):
        x, y = a
        k, s = op
        if k == 'add':
            r = x + y
            o = Not(And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y))) if s else Not(z3.BVAddNoOverflow(x, y, False))
        elif k == 'sub':
            r = x - y
            o = Not(And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, s))) if s else Not(z3.BVSubNoUnderflow(x, y, False))
        else:
            r = x * y
            o = Not(And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y))) if s else Not(z3.BVMulNoOverflow(x, y, False))
        return [(st, (simplify(r), simplify(o)))]
    return f


def c_assume(eng, st, a, ins):
    eng.oblige(st, 'ub', 'compiler assumption holds', a[0])
    return [(st, None)]


def c_expect(eng, st, a, ins):
    return [(st, a[0])]


def byte_at(eng, st, r, off):
    return eng.reader(st).byte(st.mem[r.name], off)


def c_memcmp(eng, st, a, ins):
    """memcmp/bcmp: result r.  r==0 <=> all bytes equal; otherwise an index of first difference exists."""
    p, q, n = a
    guard = None
    v, nz = ne0(n)
    if v is False:
        return [(st, BitVecVal(0, 32))]
    if v is None:
        guard = nz
    rp, po = eng.resolve(st, p, n, False, 'memcmp left', guard)
    rq, qo = eng.resolve(st, q, n, False, 'memcmp right', guard)
    if rp is None or rq is None:
        return [(st, eng.fresh('memcmp', 32))]
    np_, nq = st.mem[rp.name], st.mem[rq.name]
    s2 = st.clone()
    g = getattr(eng, 'memcmp_gran', 1)
    if g > 1:
        # the same fact for whole items: the bytes are equal iff the items are
        cnt = z3.UDiv(n, bv(g))
        cv, whole = tb(simplify(cnt * g) == n)
        if cv is None and eng.decide(st, whole) is not True or cv is False:
            raise EngineError('memcmp of a part of an item')
        cnt = simplify(cnt)
        if z3.is_app_of(n, z3.Z3_OP_BMUL) and const_of(n.arg(0)) is not None and const_of(n.arg(0)) % g == 0:
            c2 = simplify(bv(const_of(n.arg(0)) // g) * n.arg(1))
            if n.num_args() == 2 and eng.decide(st, ULE(c2, bv(1 << 40))) is True:
                cnt = c2
        s0 = st.clone()

        def items(j, s0=s0, cnt=cnt):
            s1 = s0.clone()
            s1.pc.append(ULT(j, cnt))       # facts about items are used under this condition
            rd = eng.reader(s1)
            return rd.load(np_, simplify(po + j * g), g) == rd.load(nq, simplify(qo + j * g), g)
        st.schemas.append((cnt, items))
        d = eng.ranged(s2, 'diffpos', 0, 1 << 33)
        r = eng.fresh('memcmp', 32)
        s2.pc.append(ULT(d, cnt))
        s2.pc.extend([Not(items(d)), r != 0])
        s2.schemas.append((d, items))
        s2.ghost.setdefault('memcmp', []).append(('ne', d))
        out = [(st, BitVecVal(0, 32))]
        if eng.feasible(s2):
            out.append((s2, r))
        return out
    # equal
    rd = eng.reader(st, False)

    def schema(j, rd=rd):
        return rd.byte(np_, simplify(po + j)) == rd.byte(nq, simplify(qo + j))
    st.schemas.append((n, schema))
    st.ghost.setdefault('memcmp', []).append(('eq', n))
    # differ first at d
    d = eng.ranged(s2, 'diffpos', 0, 1 << 33)
    r = eng.fresh('memcmp', 32)
    rd2 = eng.reader(s2, False)
    x = rd2.byte(np_, simplify(po + d))
    y = rd2.byte(nq, simplify(qo + d))
    s2.pc.extend([ULT(d, n), x != y, (r < 0) == ULT(x, y), r != 0])
    s2.schemas.append((d, schema))
    s2.ghost.setdefault('memcmp', []).append(('ne', d))
    out = [(st, BitVecVal(0, 32))]
    if eng.feasible(s2):
        out.append((s2, r))
    return out


def c_memmem(eng, st, a, ins):
    """memmem: the first position where the needle occurs, null if there is none.
    occurs(p) is an uninterpreted predicate of the position for each (haystack, needle); a found position also comes
    with its definition, all bytes being equal."""
    h, hn, n, nn = a
    guard_h = ne0(hn)
    guard_n = ne0(nn)
    rh, ho = eng.resolve(st, h, hn, False, 'memmem haystack', None if guard_h[0] else guard_h[1])
    rn, no = eng.resolve(st, n, nn, False, 'memmem needle', None if guard_n[0] else guard_n[1])
    if rh is None or rn is None:
        return [(st, eng.fresh('memmem', 64))]
    occ = eng.ghost_occurs(st, st.mem[rh.name], st.mem[rn.name], no, nn)
    # no occurrence
    s2 = st.clone()
    lim = simplify(If(ULT(hn, nn), bv(0), hn - nn + 1))
    st.schemas.append((lim, lambda j: Not(occ(simplify(ho + j)))))
    d = eng.ranged(s2, 'found', 0, 1 << 33)
    s2.pc.extend([ULE(nn, hn), ULE(d, hn - nn), occ(simplify(ho + d))])
    s2.schemas.append((d, lambda j: Not(occ(simplify(ho + j)))))
    s2.ghost.setdefault('memcmp', []).append(('at', d))
    out = [(st, bv(0))]
    if eng.feasible(s2):
        out.append((s2, simplify(h + d)))
    return out


def c_memchr_free(eng, st, a, ins):
    raise EngineError('memchr')


def basic():
    C = {
        '@llvm.memcpy.*': c_memcpy, '@llvm.memmove.*': c_memmove, '@llvm.memset.*': c_memset,
        '@memcpy': c_memcpy, '@memmove': c_memmove, '@memset': c_memset,
        '@llvm.lifetime.*': c_ignore, '@llvm.dbg.*': c_ignore, '@llvm.experimental.noalias*': c_ignore,
        '@llvm.assume': c_assume, '@llvm.expect.*': c_expect,
        '@exit': c_exit, '@_exit': c_exit, '@abort': c_trap, '@llvm.trap': c_trap,
        '@__assert_fail': c_assert_fail, '@memcmp': c_memcmp, '@bcmp': c_memcmp, '@memmem': c_memmem,
    }
    for op in ('smax', 'smin', 'umax', 'umin'):
        C['@llvm.%s.*' % op] = mm(op)
    C['@llvm.abs.*'] = c_abs
    C['@llvm.fshl.*'] = fsh(True)
    C['@llvm.fshr.*'] = fsh(False)
    for k in ('add', 'sub', 'mul'):
        C['@llvm.s%s.with.overflow.*' % k] = ovf((k, True))
        C['@llvm.u%s.with.overflow.*' % k] = ovf((k, False))
    return C


# ---- reference counted blocks -------------------------------------------------

HDR = 16


def block_perm_write(eng, st, r, off, n, write):
    inf = st.info[r.name]
    return bool(inf['excl'])


def block_perm_read(eng, st, r, off, n, write):
    """while the block may be shared, the header word is only accessed through the atomic operations"""
    inf = st.info[r.name]
    if inf['excl']:
        return True
    if r.tag.get('kind') == 'arc':
        return simplify(UGE(off, bv(4)))
    return True


ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def arc_hook(eng, st, kind, addr, args, order, res):
    """m_arc == (number of holders) - 1 at every moment; holders elsewhere may come and go at any time
    unless this thread holds the only one."""
    rn = [b for b in eng.bases(simplify(addr)) if b in st.regions][0]
    r = st.regions[rn]
    inf = st.info[rn]
    if not inf['live']:
        eng.oblige(st, 'uaf', 'reference count of a freed block is not touched', BoolVal(False))
    off = bv(0)

    def setres(s, v):
        if res is not None:
            s.frames[-1].env[res] = v
    st.ghost['atomics'] = st.ghost.get('atomics', 0) + 1
    if kind == 'load':
        if inf['excl']:
            setres(st, eng.reader(st).load(st.mem[rn], off, 4))
            return [st]
        v = eng.fresh('arc', 32)
        st.pc.append(v >= BitVecVal(inf['tokens'] - 1, 32))
        setres(st, v)
        if inf['tokens'] == 1:
            s2 = st.clone()
            st.pc.append(v == 0)
            eng.oblige(st, 'order', 'a load that concludes "unique" has acquire ordering', BoolVal(order[0] in ACQ))
            st.info[rn].update(excl=True)
            st.mem[rn] = Store(st.mem[rn], off, 4, BitVecVal(0, 32))
            s2.pc.append(v > 0)
            return [st, s2]
        return [st]
    if kind == 'store':
        eng.oblige(st, 'order', 'the reference count is never stored to while shared', BoolVal(bool(inf['excl'])))
        st.mem[rn] = Store(st.mem[rn], off, 4, args[0])
        return [st]
    if kind == 'rmw':
        k, d, ty = args
        if k == 'sub':
            d = simplify(-d)
        elif k != 'add':
            raise EngineError('atomicrmw %s on the reference count' % k)
        dc = const_of(simplify(d))
        if dc is None:
            raise EngineError('reference count changed by a variable')
        if dc >= 1 << 31:
            dc -= 1 << 32
        if dc not in (1, -1):
            eng.oblige(st, 'token', 'the reference count changes by one holder at a time', BoolVal(False))
            dc = 1 if dc > 0 else -1
        if dc == 1:
            eng.oblige(st, 'token', 'incr() needs a reference', BoolVal(inf['tokens'] >= 1))
            if inf['excl']:
                old = eng.reader(st).load(st.mem[rn], off, 4)
                st.mem[rn] = Store(st.mem[rn], off, 4, simplify(old + 1))
            else:
                old = eng.fresh('arc', 32)
                st.pc.append(old >= BitVecVal(inf['tokens'] - 1, 32))
            st.info[rn]['tokens'] += 1
            st.info[rn]['excl'] = False
            setres(st, old)
            return [st]
        # -1
        eng.oblige(st, 'token', 'decr() needs a reference', BoolVal(inf['tokens'] >= 1))
        eng.oblige(st, 'order', 'dropping a reference has acquire+release ordering',
                   BoolVal(order[0] in ('acq_rel', 'seq_cst')))
        if inf['excl']:
            old = eng.reader(st).load(st.mem[rn], off, 4)
            st.mem[rn] = Store(st.mem[rn], off, 4, simplify(old - 1))
            st.info[rn]['tokens'] -= 1
            st.info[rn]['dying'] = True
            setres(st, old)
            return [st]
        v = eng.fresh('arc', 32)
        out = []
        if inf['tokens'] == 1:
            s2 = st.clone()
            s2.pc.append(v == 0)
            s2.info[rn].update(tokens=0, excl=True, dying=True)
            s2.mem[rn] = Store(s2.mem[rn], off, 4, BitVecVal(-1, 32))
            if res is not None:
                s2.frames[-1].env[res] = v
            out.append(s2)
        st.pc.append(v > 0)
        st.pc.append(v >= BitVecVal(inf['tokens'] - 1, 32))
        st.info[rn]['tokens'] -= 1
        if st.info[rn]['tokens'] == 0:
            # the last visible reference is gone: somebody else owns (and may free) the block
            st.info[rn]['read'] = False
            st.info[rn]['lost'] = True
        setres(st, v)
        out.append(st)
        return out
    raise EngineError('atomic %s on the reference count' % kind)


def new_block(eng, st, name, total, kind, excl, tokens, content=None, fresh=False):
    tag = {'kind': kind}
    if kind == 'arc':
        tag['atomic'] = {0: arc_hook}
    r = eng.new_region(st, name, total, 'block', content,
                       dict(excl=excl, tokens=tokens, write=block_perm_write, read=block_perm_read,
                            dying=False, lost=False, fresh=fresh), tag=tag)
    if kind == 'arc' and excl:
        st.mem[r.name] = Store(st.mem[r.name], bv(0), 4, BitVecVal(0, 32))
    return r


def block_facts(total, need):
    """what a caller of the allocator may rely on, proved for the real allocator by property C09"""
    return [('the block is big enough', UGE(total, need)),
            ('the block has at least the minimal size', UGE(total, bv(128))),
            ('the block has at most 2^31 bytes', ULE(total, bv(1 << 31))),
            ('the block is not more than twice too big', Or(total == 128, ULT(z3.LShR(total, bv(1)), need)))]


def free_pre(kind, b, total):
    """with which sizes a block may be released"""
    if kind == 'arc':
        return [ULE(b, total - HDR), UGT(b, bv(0))]
    return [ULE(b, total), Or(total == 128, UGT(b, z3.LShR(total, bv(1)))), UGT(b, bv(0))]


def alloc_contract(kind):
    hdr = HDR if kind == 'arc' else 0

    def f(eng, st, a, ins):
        b = eng.load(st, a[0], 8, 'allocation size')
        need = simplify(b + hdr)
        big = Or(ULT(need, b), UGT(need, bv(1 << 31)))
        if kind == 'uniq':
            big = UGT(need, bv(1 << 30))
        out = []
        for isbig, s in eng.fork(st, big):
            if isbig:
                s.outcome = 'exit'
                s.retval = BitVecVal(101, 32)
                s.ghost['exit_need'] = need
                out.append((s, bv(0)))
                continue
            total = eng.ranged(s, 'blocksize', 128, 1 << 31)
            s.pc.extend(f for n, f in block_facts(total, need))
            r = new_block(eng, s, 'blk', total, kind, True, 1, fresh=True)
            s.ghost.setdefault('allocs', []).append(r.name)
            eng.store(s, a[0], 8, simplify(total - hdr), 'allocation size')
            out.append((s, simplify(r.base + hdr)))
        return out
    return f


def dealloc_contract(kind):
    hdr = HDR if kind == 'arc' else 0

    def f(eng, st, a, ins):
        p, b = a
        p = simplify(p)
        cands = [x for x in eng.bases(p) if x in st.regions and st.regions[x].kind == 'block']
        if len(cands) != 1:
            eng.oblige(st, 'token', 'the freed pointer is a block', BoolVal(False))
            return [(st, None)]
        rn = cands[0]
        r = st.regions[rn]
        inf = st.info[rn]
        eng.oblige(st, 'token', 'freed through its own allocator', BoolVal(r.tag['kind'] == kind))
        eng.oblige(st, 'token', 'freed at its start', p == r.base)
        eng.oblige(st, 'token', 'freed once', BoolVal(bool(inf['live'])))
        eng.oblige(st, 'token', 'freed only by its sole owner', BoolVal(bool(inf['excl'])))
        eng.oblige(st, 'token', 'freed with a size that fits the block' if kind == 'arc' else
                   'freed with a size that rounds up to the block', And(*free_pre(kind, b, r.size)))
        st.info[rn].update(live=False, tokens=0, read=False, write=False)
        return [(st, None)]
    return f


# ---- abstract elements -----------------------------------------------------------
# An element value is a 64-bit identity (0: the default/moved-from state, which owns nothing).
# id mod 2^56 is its value; a copy keeps the value and gets a distinct identity.

VMASK = (1 << 56) - 1


def site_no(eng, st):
    key = tuple((f.fn.name, f.block, f.idx) for f in st.frames)
    d = eng.__dict__.setdefault('copysites', {})
    return d.setdefault(key, len(d) + 1)


def ghost_region(eng, st, name):
    for r in st.regions.values():
        if r.kind == 'ghost' and r.tag.get('ghost') == name:
            return r
    return eng.new_region(st, name, bv(1 << 33), 'ghost', Base(lambda off: BitVecVal(0, 8)), distinct=False,
                          tag={'ghost': name})


def dead_region(eng, st):
    return ghost_region(eng, st, 'dead')


def is_born(eng, st, ident):
    r = ghost_region(eng, st, 'born')
    return eng.reader(st).byte(st.mem[r.name], ident) != 0


def is_dead(eng, st, ident):
    r = dead_region(eng, st)
    return eng.reader(st).byte(st.mem[r.name], ident) != 0


def live_ob(eng, st, what, ident):
    eng.oblige(st, 'life', '%s: the element is alive' % what,
               Or(ident == 0, Not(is_dead(eng, st, ident))))


def elt_trap(eng, st, *ptrs):
    # the release build's out-of-range reference: the first access ends the program
    if not eng.scev and any(eng.is_trap(p) for p in ptrs):
        st.outcome = 'trap'
        return True
    return False


def c_elt_copy(eng, st, a, ins):
    dst, src = a[0], a[1]
    if elt_trap(eng, st, src):
        return [(st, None)]
    v = eng.load(st, src, 8, 'element copy source')
    if not eng.scev:
        live_ob(eng, st, 'copy', v)
    c = site_no(eng, st)
    if eng.scev:
        return [(st, None)]
    z = eng.decide(st, v == 0)
    nv = simplify(v + bv(c << 56)) if z is False else simplify(If(v == 0, bv(0), v + bv(c << 56)))
    eng.store(st, dst, 8, nv, 'element copy destination')
    if not eng.scev:
        r = ghost_region(eng, st, 'born')
        st.mem[r.name] = Store(st.mem[r.name], nv, 1, BitVecVal(1, 8))
    return [(st, None)]


def c_elt_move(eng, st, a, ins):
    dst, src = a[0], a[1]
    if elt_trap(eng, st, src):
        return [(st, None)]
    v = eng.load(st, src, 8, 'element move source')
    live_ob(eng, st, 'move', v)
    eng.store(st, dst, 8, v, 'element move destination')
    eng.store(st, src, 8, bv(0), 'element move source')
    return [(st, None)]


def c_elt_dtor(eng, st, a, ins):
    p = a[0]
    if elt_trap(eng, st, p):
        return [(st, None)]
    v = eng.load(st, p, 8, 'element destructor')
    live_ob(eng, st, 'destroy', v)
    r = dead_region(eng, st)
    # one store per destroyed identity (0 is never alive, marking it is harmless)
    st.mem[r.name] = Store(st.mem[r.name], v, 1, BitVecVal(1, 8))
    return [(st, None)]


def elt_contracts():
    return {'@elt_copy': c_elt_copy, '@elt_move': c_elt_move, '@elt_dtor': c_elt_dtor}


def block_contracts():
    return {'@fu_ARC_ALLOC': alloc_contract('arc'), '@fu_ARC_DEALLOC': dealloc_contract('arc'),
            '@fu_UNIQ_ALLOC': alloc_contract('uniq'), '@fu_UNIQ_DEALLOC': dealloc_contract('uniq')}
