"""Representation invariant, ownership model and functional specifications of fu::vec<T>.

Pre-states are *every* state the invariant admits, per representation kind:
  small   content inside the 16 bytes of the vector            (trivial T that fits)
  null    no block                                             (other T)
  uniq    own block, sole owner, m_arc == 0
  shared  marked shared; any number of other owners, on any threads, that may come and go
"""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, SignExt, Extract, Concat
from sym import Engine, State, EngineError
from mem import Base, Store, Copy, Fill, bv, const_of, tb, diff_const, udivc, pick_byte
import contracts as C


class E:
    def __init__(self, name, T, size, small, pack, trivial, share, kind='plain'):
        self.name, self.T, self.size, self.small, self.pack = name, T, size, small, pack
        self.trivial, self.share, self.kind = trivial, share, kind
        self.hdr = 16 if share else 0
        self.has_small = small > 0

    def kinds(self):
        k = ['small' if self.has_small else 'null', 'uniq']
        if self.share:
            k.append('shared')
        return k


ELEMS = {
    'c1': E('c1', 'char', 1, 15, True, True, True),
    'c2': E('c2', 'short', 2, 7, True, True, True),
    'c4': E('c4', 'int', 4, 3, False, True, True),
    'c8': E('c8', 'uint64_t', 8, 1, False, True, True),
    'b24': E('b24', 'Big24', 24, 0, False, True, True),
    'el': E('el', 'Elt', 8, 0, False, False, True, 'elt'),
    'un': E('un', 'Uniq', 8, 0, False, False, False, 'elt'),
}


def z64(x):
    return x if x.size() == 64 else simplify(ZeroExt(64 - x.size(), x))


def mult_of(e, m):
    """is e syntactically a multiple of m?"""
    if m == 1:
        return True
    c = const_of(e)
    if c is not None:
        return c % m == 0
    k = e.decl().kind()
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        return all(mult_of(x, m) for x in e.children())
    if k == z3.Z3_OP_BMUL:
        return any(const_of(x) is not None and const_of(x) % m == 0 for x in e.children()) or \
            any(mult_of(x, m) for x in e.children())
    if k == z3.Z3_OP_CONCAT and m & (m - 1) == 0:
        last = e.children()[-1]
        c = const_of(last)
        if c is not None and (1 << last.size()) % m == 0 and c % m == 0:
            return True
        return False
    if k == z3.Z3_OP_ITE:
        return mult_of(e.arg(1), m) and mult_of(e.arg(2), m)
    if k == z3.Z3_OP_BNEG:
        return mult_of(e.arg(0), m)
    return False


def item_base(item, size, start):
    """memory whose items (size bytes each, from offset start) are item(index)"""
    def byte(off):
        rel = simplify(off - start)
        if size == 1:
            return item(rel)
        j = udivc(rel, size)
        return simplify(pick_byte(item(j), size, simplify(rel - j * size)))

    def wide(off, n):
        rel = simplify(off - start)
        if n == size and mult_of(rel, size):
            return item(exdiv(rel, size))
        if n > size and n % size == 0 and mult_of(rel, size) and n <= 64:
            j = exdiv(rel, size)
            return simplify(Concat(*[item(simplify(j + q)) for q in reversed(range(n // size))]))
        return None
    return Base(byte, wide)


def exdiv(e, m):
    """e/m for e syntactically a multiple of m (exact as long as nothing wrapped, which ULT guards check)"""
    if m == 1:
        return e
    c = const_of(e)
    if c is not None:
        # negative offsets stay negative
        if c >= 1 << 63:
            return bv(((c - (1 << 64)) // m) % (1 << 64))
        return bv(c // m)
    return udivc(e, m)


class Pre:
    __slots__ = ('name', 'E', 'reg', 'kind', 'n', 'item', 'block', 'capa', 'idbase', 'ptr')


class Piece:
    """count items, the j-th being fn(j) (None: unspecified)"""
    __slots__ = ('cnt', 'fn', 'name')

    def __init__(self, cnt, fn, name):
        self.cnt, self.fn, self.name = z64(cnt), fn, name


class Ctx:
    """one verification job: a real entry point from one shape of pre-state"""

    def __init__(self, mod, E, title):
        self.E = E
        Cs = C.basic()
        Cs.update(C.block_contracts())
        Cs.update(C.elt_contracts())
        self.eng = Engine(mod, Cs)
        self.eng.entry = title
        self.st = State()
        self.st.ghost['show'] = []
        self.nid = 0
        self.holders = []       # struct regions that are vectors
        self.idsets = []        # (idbase, n, block name or None, home region)
        self.arrays = []
        if E.kind == 'elt':
            C.ghost_region(self.eng, self.st, 'dead')
            C.ghost_region(self.eng, self.st, 'born')

    def show(self, name, e):
        self.st.ghost['show'].append((name, e))

    def i32(self, name, *cons):
        x = BitVec(name, 32)
        self.show(name, x)
        for c in cons:
            self.st.pc.append(c(x))
        return x

    def items(self, name, n):
        """an item function for n items called name"""
        E_ = self.E
        if E_.kind == 'elt':
            self.nid += 1
            base = self.nid << 40
            return (lambda j: simplify(j + bv(base))), base
        f = self.eng.freshfn('it_' + name, 64, 8 * E_.size)
        return (lambda j: f(j)), None

    def raw_struct(self, name):
        return self.eng.new_region(self.st, name, 16, 'obj')

    def vec(self, name, kind, share=None):
        E_, eng, st = self.E, self.eng, self.st
        p = Pre()
        p.name, p.E, p.kind = name, E_, kind
        p.block = None
        p.capa = None
        p.n = BitVec('n_' + name, 32)
        self.show('n_' + name, p.n)
        st.pc.append(p.n >= 0)
        st.ghost['kinds'] = dict(st.ghost.get('kinds', {}), **{name: kind if share is None else 'shared-with-' + share.name})
        if kind == 'null':
            st.pc.append(p.n == 0)
            p.item, p.idbase = self.items(name, p.n)
            r = eng.new_region(st, name, 16, 'obj', Base(lambda o: BitVecVal(0, 8), lambda o, n: BitVecVal(0, 8 * n)))
            p.reg = r
            p.n = BitVecVal(0, 32)
            p.ptr = None
        elif kind == 'small':
            p.item, p.idbase = self.items(name, p.n)
            st.pc.append(ULE(p.n, BitVecVal(E_.small, 32)))
            node = item_base(p.item, E_.size, 0)
            if E_.pack:
                node = Store(node, bv(15), 1, simplify(Extract(7, 0, p.n << 4)))
            else:
                if E_.small * E_.size < 12:
                    node = Store(node, bv(8), 4, eng.fresh('junk', 32))
                node = Store(node, bv(12), 4, simplify(p.n << 4))
            r = eng.new_region(st, name, 16, 'obj', node)
            p.reg = r
            p.ptr = r.base
        else:
            if share is None:
                p.item, p.idbase = self.items(name, p.n)
                total = BitVec('total_' + name, 64)
                st.pc.extend([UGE(total, bv(128)), ULE(total, bv(1 << 31))])
                if not E_.share:
                    st.pc.append(ULE(total, bv(1 << 30)))
                blk = C.new_block(eng, st, 'blk_' + name, total, 'arc' if E_.share else 'uniq', kind == 'uniq', 1,
                                  item_base(p.item, E_.size, E_.hdr))
                p.block = blk.name
                p.capa = BitVec('capa_' + name, 32)
                self.show('capa_' + name, p.capa)
                cb = simplify(ZeroExt(32, p.capa) * E_.size)
                st.pc.extend([p.capa > E_.small, p.n <= p.capa, ULE(cb, total - E_.hdr)])
                if E_.has_small:
                    st.pc.append(Extract(3, 0, p.capa) != 0)
                if not E_.share:
                    st.pc.append(Or(total == 128, UGT(cb, z3.LShR(total, bv(1)))))
                base = blk.base
            else:
                blk = st.regions[share.block]
                p.block = share.block
                p.capa = share.capa
                p.item, p.idbase = share.item, share.idbase
                st.info[p.block]['tokens'] += 1
                if not E_.trivial:
                    p.n = share.n
                else:
                    st.pc.append(p.n <= p.capa)
                base = blk.base
            p.ptr = simplify(base + E_.hdr)
            mark = simplify(p.capa | BitVecVal(1 << 31, 32)) if kind == 'shared' else p.capa
            pk = simplify(z3.RotateRight(mark, 8)) if E_.pack else mark
            node = Base(lambda o: self_junk(o))
            f = eng.freshfn('vecjunk')
            node = Base(lambda o: f(o))
            node = Store(node, bv(0), 8, p.ptr)
            node = Store(node, bv(8), 4, p.n)
            node = Store(node, bv(12), 4, pk)
            p.reg = eng.new_region(st, name, 16, 'obj', node)
        self.holders.append(p.reg)
        if E_.kind == 'elt' and kind != 'null' and share is None:
            self.idsets.append((p.idbase, z64(p.n), p.block, None))
        return p

    def array(self, name, n, write=False):
        """an external array of n items (BV32)"""
        E_ = self.E
        item, idb = self.items(name, n)
        r = self.eng.new_region(self.st, name, simplify(z64(n) * E_.size), 'obj', item_base(item, E_.size, 0),
                                dict(write=write))
        if idb is not None:
            self.idsets.append((idb, z64(n), None, r.name))
        return r, item

    def elem(self, name='x'):
        r, item = self.array(name, BitVecVal(1, 32), True)
        return r, item

    # -- running
    def run(self, fn, args):
        self.eng.P.lia.harvest(self.st.pc)
        self.oldinfo = {k: dict(v) for k, v in self.st.info.items()}
        outs = []
        for kind, s in self.eng.run_entry(self.st, fn, args):
            outs.append(s)
        self.eng.paths += len(outs)
        return outs

    # -- decoding the representation
    def decode(self, st, reg):
        """-> [(state, dict(kind,n,ptr,capa,block,region,off))] with representation obligations"""
        E_, eng = self.E, self.eng
        rd = eng.reader(st)
        m = st.mem[reg.name]
        pack = simplify(rd.load(m, bv(12), 4))
        out = []
        if E_.has_small:
            mask = 0x0f000000 if E_.pack else 0xf
            cond = (pack & BitVecVal(mask, 32)) == 0
            forks = eng.fork(st, cond)
        else:
            forks = eng.fork(st, pack == 0)
        for small, s in forks:
            rd = eng.reader(s)
            m = s.mem[reg.name]
            if small and E_.has_small:
                n = simplify(z3.LShR(pack, BitVecVal(28 if E_.pack else 4, 32)) & 15)
                eng.oblige(s, 'rep', 'small size fits', ULE(n, BitVecVal(E_.small, 32)))
                out.append((s, dict(kind='small', n=n, capa=BitVecVal(E_.small, 32), block=None, region=reg.name, off=bv(0))))
                continue
            n = simplify(rd.load(m, bv(8), 4))
            if small:
                eng.oblige(s, 'rep', 'a vector without a block is empty', n == 0)
                out.append((s, dict(kind='null', n=BitVecVal(0, 32), capa=BitVecVal(0, 32), block=None, region=None, off=None)))
                continue
            ptr = simplify(rd.load(m, bv(0), 8))
            capa = simplify(z3.RotateLeft(pack, 8)) if E_.pack else pack
            sh = simplify(capa & BitVecVal(0x7fffffff, 32)) if E_.share else capa
            blk = [b for b in eng.bases(ptr) if b in s.regions and s.regions[b].kind == 'block']
            if len(blk) != 1:
                eng.oblige(s, 'rep', 'a big vector points at one block', BoolVal(False))
                continue
            b = blk[0]
            r = s.regions[b]
            eng.oblige(s, 'rep', 'data pointer is the block start', ptr == r.base + E_.hdr)
            eng.oblige(s, 'rep', 'capacity exceeds the small capacity', sh > E_.small)
            eng.oblige(s, 'rep', '0 <= size <= capacity', And(n >= 0, n <= sh))
            eng.oblige(s, 'rep', 'capacity fits the block', ULE(ZeroExt(32, sh) * E_.size, r.size - E_.hdr))
            if not E_.share:
                eng.oblige(s, 'rep', 'capacity accounts for the block',
                           Or(r.size == 128, UGT(ZeroExt(32, sh) * E_.size, z3.LShR(r.size, bv(1)))))
            eng.oblige(s, 'token', 'the block is alive', BoolVal(bool(s.info[b]['live'])))
            if E_.share:
                ex = bool(s.info[b]['excl'])
                if not ex:
                    eng.oblige(s, 'share', 'a block with other owners is marked shared', capa < 0)
                    for idb, cnt, blk_, _h in self.idsets:
                        if blk_ == b:
                            # whoever goes last destroys the items it has: no owner may see fewer than there are
                            eng.oblige(s, 'life', 'every owner of shared items with destructors has all of them', z64(n) == cnt)
                else:
                    eng.oblige(s, 'rep', 'the sole owner sees a zero count',
                               rd.load(s.mem[b], bv(0), 4) == 0)
            out.append((s, dict(kind='big', n=n, capa=capa, block=b, region=b, off=bv(E_.hdr), sh=sh)))
        return out

    def check_content(self, st, name, d, pieces):
        E_, eng = self.E, self.eng
        tot = bv(0)
        for p in pieces:
            tot = simplify(tot + p.cnt)
        eng.oblige(st, 'size', 'size of %s' % name, z64(d['n']) == tot)
        if d['region'] is None:
            return
        pos = bv(0)
        for p in pieces:
            if p.fn is not None:
                s = st.clone()
                j = eng.ranged(s, 'j', 0, 1 << 32)
                s.pc.append(ULT(j, p.cnt))
                if eng.feasible(s):
                    s.pc.append(ULT(z64(d['n']), bv(1 << 31)))
                    off = simplify(d['off'] + (pos + j) * E_.size)
                    v = eng.reader(s).load(s.mem[d['region']], off, E_.size)
                    want = p.fn(j)
                    if E_.kind == 'elt':
                        eng.oblige(s, 'content', 'content of %s: %s' % (name, p.name),
                                   (v & bv(C.VMASK)) == (want & bv(C.VMASK)), inst=(j, simplify(pos + j)))
                        eng.oblige(s, 'life', 'elements of %s are alive: %s' % (name, p.name),
                                   Or(v == 0, Not(C.is_dead(eng, s, v))))
                    else:
                        eng.oblige(s, 'content', 'content of %s: %s' % (name, p.name), v == want,
                                   inst=(j, simplify(pos + j)))
            pos = simplify(pos + p.cnt)

    def check_final(self, st, finals, arrays=()):
        """finals: [(struct region, pieces)] vectors alive in the final state; every element exactly once.
        arrays: [(region, count, spec fn)] external arrays afterwards"""
        E_, eng = self.E, self.eng
        work = [(st, [])]
        for reg, pieces in finals:
            nxt = []
            for s, ds in work:
                for s2, d in self.decode(s, reg):
                    nxt.append((s2, ds + [d]))
            work = nxt
        for s, ds in work:
            for (reg, pieces), d in zip(finals, ds):
                self.check_content(s, reg.name.split('#')[0], d, pieces)
            # ownership
            for b in list(s.regions):
                r = s.regions[b]
                if r.kind != 'block':
                    continue
                inf = s.info[b]
                h = sum(1 for d in ds if d['block'] == b)
                if inf['live']:
                    eng.oblige(s, 'token', 'every owner is counted once', BoolVal(inf['tokens'] == h))
                    if h == 0:
                        eng.oblige(s, 'leak', 'no block is leaked', BoolVal(bool(inf['lost'])))
                else:
                    eng.oblige(s, 'token', 'a freed block has no owner', BoolVal(h == 0))
            if E_.kind == 'elt':
                self.check_once(s, finals, ds, arrays)
        return work

    def positions(self, ident, finals, ds, arrays):
        """where the content specification would put the element `ident`: (condition, region, offset).
        Item j of an identity piece is specified as some base identity + j."""
        out = []
        for (reg, pieces), d in zip(finals, ds):
            if d['region'] is None:
                continue
            pos = bv(0)
            for p in pieces:
                if p.fn is not None:
                    w0 = p.fn(bv(0))
                    j = simplify((ident & bv(C.VMASK)) - w0)
                    v, c = tb(ULT(j, p.cnt))
                    if v is not False:
                        out.append((c, d['region'], simplify(d['off'] + (pos + j) * 8)))
                pos = simplify(pos + p.cnt)
        for (reg, cnt) in arrays:
            for (idb, n, blk, home) in self.idsets:
                if home == reg.name:
                    j = simplify(ident - bv(idb))
                    v, c = tb(ULT(j, cnt))
                    if v is not False:
                        out.append((c, reg.name, simplify(j * 8)))
        return out

    def check_once(self, st, finals, ds, arrays):
        eng = self.eng
        nsites = len(eng.__dict__.get('copysites', {}))
        for (idb, n, blk, home) in self.idsets:
            for c in range(nsites + 1):
                s = st.clone()
                i = eng.ranged(s, 'i', 0, 1 << 32)
                s.pc.append(ULT(i, n))
                if not eng.feasible(s):
                    continue
                ident = simplify(bv(idb) + i + bv(c << 56))
                if c == 0:
                    if blk is not None and s.info[blk]['live'] and (s.info[blk]['lost'] or not s.info[blk]['excl']):
                        eng.oblige(s, 'life', 'elements other owners still use are not destroyed', Not(C.is_dead(eng, s, ident)))
                        continue
                    if home is not None and not any(a[0].name == home for a in arrays):
                        eng.oblige(s, 'life', 'elements that were only copied from are not destroyed', Not(C.is_dead(eng, s, ident)))
                        continue
                else:
                    born = C.is_born(eng, s, ident)
                    v, b = tb(born)
                    if v is False:
                        continue
                    s.pc.append(b)
                    if not eng.feasible(s):
                        continue
                cases = [(s, [])]
                for cond, rg, off in self.positions(ident, finals, ds, arrays):
                    nxt = []
                    for s1, hs in cases:
                        for yes, s2 in eng.fork(s1, cond):
                            nxt.append((s2, hs + [(rg, off)] if yes else hs))
                    cases = nxt
                for s1, hs in cases:
                    dead = C.is_dead(eng, s1, ident)
                    hits = [eng.reader(s1).load(s1.mem[rg], off, 8) == ident for rg, off in hs]
                    eng.oblige(s1, 'life', 'every element is either destroyed or still owned, not both',
                               z3.Xor(dead, Or(*hits) if hits else BoolVal(False)))
                    for x in range(len(hits)):
                        for y in range(x):
                            eng.oblige(s1, 'life', 'no element is owned twice', Not(And(hits[x], hits[y])))


def self_junk(o):
    raise EngineError('junk')


# ---- operations -------------------------------------------------------------------

MAXN = 0x7ffffffe


def old(p, lo, cnt, name=None):
    lo = z64(lo)
    return Piece(cnt, (lambda j: p.item(simplify(lo + j))), name or 'old items')


def clamp(x, lo, hi):
    return simplify(If(x < lo, lo, If(x > hi, hi, x)))


def zero_items(E_, cnt):
    z = BitVecVal(0, 8 * E_.size)
    return Piece(cnt, lambda j: z, 'zero items')


def junk_items(E_, cnt):
    if not E_.trivial:
        return zero_items(E_, cnt)
    return Piece(cnt, None, 'unspecified items')


I0 = BitVecVal(0, 32)


class Job:
    def __init__(self, op, ename, kinds, fn, case='in'):
        self.op, self.ename, self.kinds, self.case = op, ename, kinds, case

        def run(cx, k):
            cx.case = case
            fn(cx, k)
        self.fn = run

    def title(self):
        return '%s<%s>(%s)%s' % (self.op, ELEMS[self.ename].T, ','.join(self.kinds), '' if self.case == 'in' else ' ' + CASENAME[self.case])


CASENAME = {'lo': 'position below', 'hi': 'position above', 'dl': 'count below', 'dh': 'count above'}


def finish(cx, outs, finals, arrays=(), need=None, trap=None, post=None):
    """the common part of every postcondition.
    finals: list of (pre or region, pieces) ; need: 64-bit number of items the largest result holds"""
    eng, E_ = cx.eng, cx.E
    eng.cover(outs)
    for s in outs:
        if s.outcome == 'exit':
            lim = (1 << 31) if E_.share else (1 << 30)
            eng.oblige(s, 'exit', 'only an impossible allocation ends the program',
                       And(s.retval == 101, need is not None and
                           UGT((need + (1 if E_.has_small else 0)) * E_.size + E_.hdr, bv(lim)))
                       if need is not None else BoolVal(False))
            continue
        if s.outcome == 'trap':
            eng.oblige(s, 'trap', 'no out-of-range access', trap if trap is not None else BoolVal(False))
            continue
        if s.outcome:
            continue
        if trap is not None:
            eng.oblige(s, 'trap', 'an out-of-range access traps', Not(trap))
        for s2, ds in cx.check_final(s, [(f[0].reg if isinstance(f[0], Pre) else f[0], f[1]) for f in finals], arrays):
            if post:
                post(s2, ds)


def n64(p):
    return z64(p.n)


OPS = {}


CASES = {}
IDX = ('in', 'lo', 'hi')
DEL = ('in', 'dl', 'dh')
IDXDEL = ('in', 'lo', 'hi', 'dl', 'dh')


def op(name, nvec=1, kinds=None, only=None, cases=None):
    def d(f):
        OPS[name] = (f, nvec, kinds, only)
        if cases:
            CASES[name] = cases
        return f
    return d


@op('dtor')
def _(cx, k):
    v = cx.vec('v', k[0])
    cx.holders.remove(v.reg)
    finish(cx, cx.run('@%s_dtor' % cx.E.name, [v.reg.base]), [])


@op('ctor', 0)
def _(cx, k):
    r = cx.raw_struct('v')
    finish(cx, cx.run('@%s_ctor' % cx.E.name, [r.base]), [(r, [])])


@op('move_ctor')
def _(cx, k):
    w = cx.vec('w', k[0])
    r = cx.raw_struct('v')
    finish(cx, cx.run('@%s_move_ctor' % cx.E.name, [r.base, w.reg.base]), [(r, [old(w, I0, w.n)])])


@op('destructive_move')
def _(cx, k):
    w = cx.vec('w', k[0])
    r = cx.raw_struct('v')
    finish(cx, cx.run('@%s_dmove' % cx.E.name, [r.base, w.reg.base]), [(r, [old(w, I0, w.n)])])


@op('destructive_move_or_default')
def _(cx, k):
    w = cx.vec('w', k[0])
    r = cx.raw_struct('v')
    finish(cx, cx.run('@%s_dmove_def' % cx.E.name, [r.base, w.reg.base]), [(r, [old(w, I0, w.n)])])


def two(cx, k):
    v = cx.vec('v', k[0])
    if k[1] == 'same':
        w = cx.vec('w', 'shared', share=v)
    else:
        w = cx.vec('w', k[1])
    return v, w


@op('move_assign', 2)
def _(cx, k):
    v, w = two(cx, k)
    finish(cx, cx.run('@%s_move_assign' % cx.E.name, [v.reg.base, w.reg.base]), [(v, [old(w, I0, w.n)])])


@op('swap', 2)
def _(cx, k):
    v, w = two(cx, k)
    finish(cx, cx.run('@%s_swap' % cx.E.name, [v.reg.base, w.reg.base]),
           [(v, [old(w, I0, w.n)]), (w, [old(v, I0, v.n)])])


@op('copy_ctor', only='share')
def _(cx, k):
    w = cx.vec('w', k[0])
    r = cx.raw_struct('v')
    finish(cx, cx.run('@%s_copy_ctor' % cx.E.name, [r.base, w.reg.base]),
           [(r, [old(w, I0, w.n)]), (w, [old(w, I0, w.n)])])


@op('copy_assign', 2, only='share')
def _(cx, k):
    v, w = two(cx, k)
    finish(cx, cx.run('@%s_copy_assign' % cx.E.name, [v.reg.base, w.reg.base]),
           [(v, [old(w, I0, w.n)]), (w, [old(w, I0, w.n)])])


@op('accessors')
def _(cx, k):
    eng = cx.eng
    v = cx.vec('v', k[0])
    st0 = cx.st
    n = cx.E.name
    same = [(v, [old(v, I0, v.n)])]

    def each(fn, chk):
        cx.st = st0.clone()
        outs = cx.run('@%s_%s' % (n, fn), [v.reg.base])
        for s in outs:
            if not s.outcome:
                chk(s, s.retval)
        finish(cx, outs, same)
    each('size', lambda s, r: eng.oblige(s, 'rep', 'size() is the number of items', r == v.n))
    each('bytesize', lambda s, r: eng.oblige(s, 'rep', 'bytesize() is size()*sizeof(T)', r == n64(v) * cx.E.size))
    each('bool', lambda s, r: eng.oblige(s, 'rep', 'a vector is true iff it is not empty', r == (v.n != 0)))
    if v.ptr is not None:
        each('data', lambda s, r: eng.oblige(s, 'rep', 'data() points at the first item', r == v.ptr))
        each('begin', lambda s, r: eng.oblige(s, 'rep', 'begin() points at the first item', r == v.ptr))
        each('end', lambda s, r: eng.oblige(s, 'rep', 'end() points past the last item', r == v.ptr + n64(v) * cx.E.size))

    def ck(s, r):
        if v.kind == 'shared':
            eng.oblige(s, 'rep', 'capa() of a shared vector is negative', r < 0)
        elif v.kind == 'uniq':
            eng.oblige(s, 'rep', 'capa() is the capacity', And(r == v.capa, r >= v.n))
        else:
            eng.oblige(s, 'rep', 'capa() is the small capacity', r == cx.E.small)
    each('capa', ck)


@op('index')
def _(cx, k):
    eng = cx.eng
    v = cx.vec('v', k[0])
    i = cx.i32('idx')
    inr = ULT(i, v.n)
    outs = cx.run('@%s_at' % cx.E.name, [v.reg.base, i])
    for s in outs:
        if v.ptr is not None:
            eng.oblige(s, 'index', 'an index in range selects that item', Implies(inr, s.retval == v.ptr + z64(i) * cx.E.size))
        eng.oblige(s, 'index', 'an index out of range selects the trap address', Implies(Not(inr), s.retval == 1))
    finish(cx, outs, [(v, [old(v, I0, v.n)])])


def unique_post(cx, v, ptr=False):
    eng = cx.eng

    def post(s, ds):
        d = ds[0]
        if d['kind'] == 'big':
            eng.oblige(s, 'share', 'the vector is the only owner of its block', BoolVal(bool(s.info[d['block']]['excl'])))
            eng.oblige(s, 'share', 'the vector is marked unique', d['capa'] >= 0)
        if ptr and d['region'] is not None:
            eng.oblige(s, 'share', 'the returned pointer is the data',
                       s.retval == s.regions[d['region']].base + d['off'])
    return post


@op('index_mut')
def _(cx, k):
    eng = cx.eng
    v = cx.vec('v', k[0])
    i = cx.i32('idx')
    inr = ULT(i, v.n)
    outs = cx.run('@%s_mutref' % cx.E.name, [v.reg.base, i])

    def post(s, ds):
        d = ds[0]
        unique_post(cx, v)(s, ds)
        eng.oblige(s, 'index', 'an index out of range selects the trap address', Implies(Not(inr), s.retval == 1))
        if d['region'] is not None:
            eng.oblige(s, 'index', 'an index in range selects that item', Implies(
                inr, s.retval == s.regions[d['region']].base + d['off'] + z64(i) * cx.E.size))
    finish(cx, outs, [(v, [old(v, I0, v.n)])], need=n64(v), post=post)


@op('data_mut')
def _(cx, k):
    v = cx.vec('v', k[0])
    outs = cx.run('@%s_data_mut' % cx.E.name, [v.reg.base])
    finish(cx, outs, [(v, [old(v, I0, v.n)])], need=n64(v), post=unique_post(cx, v, True))


def lim(cx, *xs):
    """documented precondition: the resulting size is representable"""
    t = bv(0)
    for x in xs:
        t = t + SignExt(32, x)
    cx.st.pc.append(ULE(simplify(t), bv(MAXN)))


@op('push')
def _(cx, k):
    v = cx.vec('v', k[0])
    x, it = cx.elem()
    lim(cx, v.n, I0 + 1)
    outs = cx.run('@%s_push' % cx.E.name, [v.reg.base, x.base])
    finish(cx, outs, [(v, [old(v, I0, v.n), Piece(bv(1), it, 'the pushed item')])], [(x, bv(1))], need=n64(v) + 1)


@op('unshift')
def _(cx, k):
    v = cx.vec('v', k[0])
    x, it = cx.elem()
    lim(cx, v.n, I0 + 1)
    outs = cx.run('@%s_unshift' % cx.E.name, [v.reg.base, x.base])
    finish(cx, outs, [(v, [Piece(bv(1), it, 'the unshifted item'), old(v, I0, v.n)])], [(x, bv(1))], need=n64(v) + 1)


@op('insert', cases=IDX)
def _(cx, k):
    v = cx.vec('v', k[0])
    x, it = cx.elem()
    i, i0 = one_idx(cx, v)
    lim(cx, v.n, I0 + 1)
    outs = cx.run('@%s_insert' % cx.E.name, [v.reg.base, i0, x.base])
    finish(cx, outs, [(v, [old(v, I0, i, 'items before'), Piece(bv(1), it, 'the inserted item'),
                           old(v, i, v.n - i, 'items after')])], [(x, bv(1))], need=n64(v) + 1)


@op('pop')
def _(cx, k):
    v = cx.vec('v', k[0])
    d = If(v.n > 0, I0 + 1, I0)
    outs = cx.run('@%s_pop' % cx.E.name, [v.reg.base])
    finish(cx, outs, [(v, [old(v, I0, simplify(v.n - d))])], need=n64(v))


@op('shift1')
def _(cx, k):
    v = cx.vec('v', k[0])
    d = simplify(If(v.n > 0, I0 + 1, I0))
    outs = cx.run('@%s_shift1' % cx.E.name, [v.reg.base])
    finish(cx, outs, [(v, [old(v, d, simplify(v.n - d))])], need=n64(v))


@op('shift')
def _(cx, k):
    v = cx.vec('v', k[0])
    a = cx.i32('count')
    d = clamp(a, I0, v.n)
    outs = cx.run('@%s_shift' % cx.E.name, [v.reg.base, a])
    finish(cx, outs, [(v, [old(v, d, simplify(v.n - d))])], need=n64(v))


@op('shift_pop')
def _(cx, k):
    v = cx.vec('v', k[0])
    a = cx.i32('front')
    b = cx.i32('back')
    d = clamp(a, I0, v.n)
    e = clamp(b, I0, v.n - d)
    outs = cx.run('@%s_shift_pop' % cx.E.name, [v.reg.base, a, b])
    finish(cx, outs, [(v, [old(v, d, simplify(v.n - d - e))])], need=n64(v))


def resize_like(fn, junk, lo, hi):
    def f(cx, k):
        v = cx.vec('v', k[0])
        m = cx.i32('newsize', lambda a: And(a >= 0, a <= MAXN))
        keep = simplify(If(m < v.n, m, v.n)) if lo else v.n
        add = simplify(If(m > v.n, m - v.n, I0)) if hi else I0
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [v.reg.base, m])
        ps = [old(v, I0, keep)]
        if hi:
            ps.append(junk_items(cx.E, add) if junk else zero_items(cx.E, add))
        need = simplify(z64(keep) + z64(add))
        # a shrink of a shared vector may reallocate for what it keeps
        finish(cx, outs, [(v, ps)], need=need)
    return f


op('resize')(resize_like('resize', False, True, True))
op('resize_junk')(resize_like('resize_junk', True, True, True))
op('grow')(resize_like('grow', False, False, True))
op('grow_junk')(resize_like('grow_junk', True, False, True))
op('shrink')(resize_like('shrink', False, True, False))


@op('clear')
def _(cx, k):
    v = cx.vec('v', k[0])
    finish(cx, cx.run('@%s_clear' % cx.E.name, [v.reg.base]), [(v, [])], need=bv(0))


@op('reserve')
def _(cx, k):
    v = cx.vec('v', k[0])
    m = cx.i32('capa', lambda a: And(a >= 0, a <= MAXN))
    outs = cx.run('@%s_reserve' % cx.E.name, [v.reg.base, m])

    def post(s, ds):
        cx.eng.oblige(s, 'rep', 'the capacity is at least what was reserved', ds[0]['capa'] >= m)
        if cx.E.share:
            unique_post(cx, v)(s, ds)
    finish(cx, outs, [(v, [old(v, I0, v.n)])], need=simplify(If(UGT(z64(m), n64(v)), z64(m), n64(v))), post=post)


@op('reserve0')
def _(cx, k):
    v = cx.vec('v', k[0])
    outs = cx.run('@%s_reserve0' % cx.E.name, [v.reg.base])
    finish(cx, outs, [(v, [old(v, I0, v.n)])], need=n64(v), post=unique_post(cx, v))


@op('splice')
def _(cx, k):
    v = cx.vec('v', k[0])
    i0 = cx.i32('idx')
    d0 = cx.i32('del')
    i = clamp(i0, I0, v.n)
    d = clamp(d0, I0, v.n - i)
    outs = cx.run('@%s_splice' % cx.E.name, [v.reg.base, i0, d0])
    finish(cx, outs, [(v, [old(v, I0, i, 'items before'), old(v, simplify(i + d), simplify(v.n - i - d), 'items after')])],
           need=n64(v))


def at_most(x, hi):
    return And(x >= 0, x <= hi)


def one_idx(cx, v):
    """-> position as passed, and clamped into the array; one case per side of the array"""
    i0 = cx.i32('idx')
    if cx.case == 'in':
        cx.st.pc.append(at_most(i0, v.n))
        return i0, i0
    cx.st.pc.append(i0 < 0 if cx.case == 'lo' else i0 > v.n)
    return (I0 if cx.case == 'lo' else v.n), i0


def idx_del(cx, v):
    """-> position and count as passed (anything), and clamped into the array"""
    i0 = cx.i32('idx')
    d0 = cx.i32('del')
    pc, c = cx.st.pc, cx.case
    if c in ('lo', 'hi'):
        pc.append(i0 < 0 if c == 'lo' else i0 > v.n)
        i = I0 if c == 'lo' else v.n
        pc.append(at_most(d0, v.n))
        return i, (d0 if c == 'lo' else I0), i0, d0
    pc.append(at_most(i0, v.n))
    if c == 'in':
        pc.append(at_most(d0, v.n - i0))
        return i0, d0, i0, d0
    pc.append(d0 < 0 if c == 'dl' else d0 > v.n - i0)
    return i0, (I0 if c == 'dl' else simplify(v.n - i0)), i0, d0


def any_del(cx, v):
    d0 = cx.i32('del')
    if cx.case == 'in':
        cx.st.pc.append(at_most(d0, v.n))
        return d0, d0
    cx.st.pc.append(d0 < 0 if cx.case == 'dl' else d0 > v.n)
    return (I0 if cx.case == 'dl' else v.n), d0


@op('splice_empty', cases=IDXDEL)
def _(cx, k):
    v = cx.vec('v', k[0])
    i, d, i0, d0 = idx_del(cx, v)
    m = cx.i32('count', lambda a: a >= 0)
    lim(cx, v.n, m)
    outs = cx.run('@%s_splice_empty' % cx.E.name, [v.reg.base, i0, d0, m])
    finish(cx, outs, [(v, [old(v, I0, i, 'items before'), zero_items(cx.E, m),
                           old(v, simplify(i + d), simplify(v.n - i - d), 'items after')])], need=n64(v) + z64(m))


@op('splice_mv', 2, cases=IDXDEL)
def _(cx, k):
    v, w = two(cx, k)
    i, d, i0, d0 = idx_del(cx, v)
    lim(cx, v.n, w.n)
    outs = cx.run('@%s_splice_mv' % cx.E.name, [v.reg.base, i0, d0, w.reg.base])
    finish(cx, outs, [(v, [old(v, I0, i, 'items before'), old(w, I0, w.n, 'spliced items'),
                           old(v, simplify(i + d), simplify(v.n - i - d), 'items after')])], need=n64(v) + n64(w))


@op('append_mv', 2, cases=DEL)
def _(cx, k):
    v, w = two(cx, k)
    d, d0 = any_del(cx, v)
    lim(cx, v.n, w.n)
    outs = cx.run('@%s_append_mv' % cx.E.name, [v.reg.base, d0, w.reg.base])
    finish(cx, outs, [(v, [old(v, I0, simplify(v.n - d), 'items before'), old(w, I0, w.n, 'appended items')])],
           need=n64(v) + n64(w))


@op('append0_mv', 2)
def _(cx, k):
    v, w = two(cx, k)
    lim(cx, v.n, w.n)
    outs = cx.run('@%s_append0_mv' % cx.E.name, [v.reg.base, w.reg.base])
    finish(cx, outs, [(v, [old(v, I0, v.n, 'items before'), old(w, I0, w.n, 'appended items')])],
           need=n64(v) + n64(w))


def source(cx, k, v):
    """-> pointer, count, item function, count shown; k: 'ext' (an array elsewhere) or 'self' (inside v)"""
    m = cx.i32('srcsize', lambda a: a >= 0)
    if k == 'ext':
        r, it = cx.array('src', m)
        return r.base, m, it
    if v.ptr is None:
        cx.st.pc.append(m == 0)
        p = simplify(cx.eng.load(cx.st, v.reg.base, 8))
        return p, m, (lambda j: bv(0, 8 * cx.E.size))
    o = cx.i32('srcofs', lambda a: And(a >= 0, a <= v.n))
    cx.st.pc.append(m <= v.n - o)
    return simplify(v.ptr + z64(o) * cx.E.size), m, (lambda j: v.item(simplify(z64(o) + j)))


@op('splice_copy', 1, ('ext', 'self'), only='share', cases=IDXDEL)
def _(cx, k):
    v = cx.vec('v', k[0])
    p, m, it = source(cx, k[1], v)
    i, d, i0, d0 = idx_del(cx, v)
    lim(cx, v.n, m)
    outs = cx.run('@%s_splice_cp' % cx.E.name, [v.reg.base, i0, d0, p, m])
    finish(cx, outs, [(v, [old(v, I0, i, 'items before'), Piece(m, it, 'spliced items'),
                           old(v, simplify(i + d), simplify(v.n - i - d), 'items after')])], need=n64(v) + z64(m))


@op('append_copy', 1, ('ext', 'self'), only='share', cases=DEL)
def _(cx, k):
    v = cx.vec('v', k[0])
    p, m, it = source(cx, k[1], v)
    d, d0 = any_del(cx, v)
    lim(cx, v.n, m)
    outs = cx.run('@%s_append_cp' % cx.E.name, [v.reg.base, d0, p, m])
    finish(cx, outs, [(v, [old(v, I0, simplify(v.n - d), 'items before'), Piece(m, it, 'appended items')])],
           need=n64(v) + z64(m))


@op('append0_copy', 1, ('ext', 'self'), only='share')
def _(cx, k):
    v = cx.vec('v', k[0])
    p, m, it = source(cx, k[1], v)
    lim(cx, v.n, m)
    outs = cx.run('@%s_append0_cp' % cx.E.name, [v.reg.base, p, m])
    finish(cx, outs, [(v, [old(v, I0, v.n, 'items before'), Piece(m, it, 'appended items')])],
           need=n64(v) + z64(m))


@op('splice_vec', 2, only='share', cases=IDXDEL)
def _(cx, k):
    v, w = two(cx, k)
    i, d, i0, d0 = idx_del(cx, v)
    lim(cx, v.n, w.n)
    outs = cx.run('@%s_splice_vec' % cx.E.name, [v.reg.base, i0, d0, w.reg.base])
    finish(cx, outs, [(v, [old(v, I0, i, 'items before'), old(w, I0, w.n, 'spliced items'),
                           old(v, simplify(i + d), simplify(v.n - i - d), 'items after')]),
                      (w, [old(w, I0, w.n, 'the source is unchanged')])], need=n64(v) + n64(w))


@op('append_vec', 2, only='share', cases=DEL)
def _(cx, k):
    v, w = two(cx, k)
    d, d0 = any_del(cx, v)
    lim(cx, v.n, w.n)
    outs = cx.run('@%s_append_vec' % cx.E.name, [v.reg.base, d0, w.reg.base])
    finish(cx, outs, [(v, [old(v, I0, simplify(v.n - d), 'items before'), old(w, I0, w.n, 'appended items')]),
                      (w, [old(w, I0, w.n, 'the source is unchanged')])], need=n64(v) + n64(w))


@op('init_copy', 0, only='share')
def _(cx, k):
    r = cx.raw_struct('v')
    m = cx.i32('srcsize', lambda a: And(a >= 0, a <= MAXN))
    s, it = cx.array('src', m)
    outs = cx.run('@%s_init_copy' % cx.E.name, [r.base, s.base, m])
    finish(cx, outs, [(r, [Piece(m, it, 'copied items')])], need=z64(m))


@op('init_copy2', 0, only='share')
def _(cx, k):
    r = cx.raw_struct('v')
    m = cx.i32('size0', lambda a: a >= 0)
    n = cx.i32('size1', lambda a: a >= 0)
    lim(cx, m, n)
    s, it = cx.array('src0', m)
    t, jt = cx.array('src1', n)
    outs = cx.run('@%s_init_copy2' % cx.E.name, [r.base, s.base, m, t.base, n])
    finish(cx, outs, [(r, [Piece(m, it, 'left items'), Piece(n, jt, 'right items')])], need=z64(m) + z64(n))


@op('init_move', 0)
def _(cx, k):
    r = cx.raw_struct('v')
    m = cx.i32('srcsize', lambda a: And(a >= 0, a <= MAXN))
    s, it = cx.array('src', m, True)
    outs = cx.run('@%s_init_move' % cx.E.name, [r.base, s.base, m])
    finish(cx, outs, [(r, [Piece(m, it, 'moved items')])], [(s, z64(m))], need=z64(m))


def jobs(elems=None, ops=None):
    out = []
    for en, E_ in ELEMS.items():
        if elems and en not in elems:
            continue
        for name, (f, nvec, kinds, only) in OPS.items():
            if ops and name not in ops:
                continue
            if only == 'share' and not E_.share:
                continue
            shapes = [()]
            if nvec >= 1:
                shapes = [(a,) for a in E_.kinds()]
            if nvec == 2:
                shapes = [(a, b) for a in E_.kinds() for b in E_.kinds()]
                if E_.share:
                    shapes.append(('shared', 'same'))
            if kinds:
                shapes = [s + (x,) for s in shapes for x in kinds]
            for s in shapes:
                for c in CASES.get(name, ('in',)):
                    out.append(Job(name, en, s, f, c))
    return out
