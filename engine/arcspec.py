"""The block allocator (mem/arc.cpp): the contract contracts.py uses for it, proved against its real code."""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, Extract
from sym import Engine, State
from mem import Base, Store, Copy, bv
import contracts as C


class Plain:
    """a verification job on plain functions (no array element type)"""

    def __init__(self, mod, title, contracts=None):
        Cs = C.basic()
        Cs.update(contracts or {})
        self.eng = Engine(mod, Cs)
        self.eng.entry = title
        self.st = State()
        self.st.ghost['show'] = []
        self.mod = mod

    def show(self, name, e):
        self.st.ghost['show'].append((name, e))

    def var(self, name, w=64):
        x = BitVec(name, w)
        self.show(name, x)
        return x

    def obj(self, name, size, content=None, **kw):
        return self.eng.new_region(self.st, name, size, 'obj', content, **kw)

    def run(self, fn, args, st=None):
        st = st or self.st
        self.eng.P.lia.harvest(st.pc)
        outs = [s for k, s in self.eng.run_entry(st, fn, args)]
        self.eng.paths += len(outs)
        return outs


# ---- malloc / free --------------------------------------------------------------

def c_malloc(eng, st, a, ins):
    n = simplify(a[0])
    r = eng.new_region(st, 'malloc', n, 'heap', align=16)
    st.ghost.setdefault('mallocs', []).append(r.name)
    return [(st, r.base)]


def c_free(eng, st, a, ins):
    p = simplify(a[0])
    cs = [b for b in eng.bases(p) if b in st.regions and st.regions[b].kind == 'heap']
    if len(cs) != 1:
        eng.oblige(st, 'token', 'what is given back to the system came from it', BoolVal(False))
        return [(st, None)]
    r = st.regions[cs[0]]
    eng.oblige(st, 'token', 'given back at its start', p == r.base)
    eng.oblige(st, 'token', 'given back once', BoolVal(bool(st.info[r.name]['live'])))
    st.info[r.name]['live'] = False
    return [(st, None)]


# ---- process-wide counters: only ever changed atomically, and only by adding --------

class AnyOffset(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return counter_hook(k)

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return True


def counter_hook(off):
    def h(eng, st, kind, addr, args, order, res):
        rn = [b for b in eng.bases(simplify(addr)) if b in st.regions][0]
        key = '%s+%d' % (rn.split('#')[0], off)
        w = eng.width(args[-1]) if kind != 'store' else args[0].size()
        v = eng.fresh('counter', w)
        if kind == 'rmw':
            k, d, ty = args
            eng.oblige(st, 'order', 'a process-wide counter only changes by adding or subtracting', BoolVal(k in ('add', 'sub')))
            st.ghost.setdefault('deltas', []).append((key, simplify(d if k == 'add' else -d)))
        elif kind != 'load':
            eng.oblige(st, 'order', 'a process-wide counter only changes by adding or subtracting', BoolVal(False))
        if res is not None:
            st.frames[-1].env[res] = v
        return [st]
    return h


def globals_shared(cx):
    """other threads use the allocator too: global variables may only be touched atomically"""
    eng, st = cx.eng, cx.st
    for name, (ty, init, const) in list(cx.mod.globals.items()):
        if const or name.startswith('@llvm.') or name == '@__dso_handle' or init is None:
            continue
        a = eng.global_addr(st, name)
        for r in st.regions.values():
            if r.tag.get('global') == name:
                r.tag['atomic'] = AnyOffset()
                st.info[r.name].update(read=False, write=False)


def total_delta(st, key, w=32):
    t = BitVecVal(0, w)
    for k, d in st.ghost.get('deltas', []):
        if k == key:
            t = t + d
    return simplify(t)


LIMIT = {'arc': 1 << 31, 'uniq': 1 << 30}
HDR = {'arc': 16, 'uniq': 0}
ALLOC = {'arc': '@fu_ARC_ALLOC', 'uniq': '@fu_UNIQ_ALLOC'}
FREE = {'arc': '@fu_ARC_DEALLOC', 'uniq': '@fu_UNIQ_DEALLOC'}


def pow2(x):
    return And(x != 0, (x & (x - 1)) == 0)


def do_alloc(cx, kind):
    """-> [(state, result pointer, reported size)] of the successful runs, all postconditions stated"""
    eng, st = cx.eng, cx.st
    req = cx.var('bytes')
    hdr = HDR[kind]
    io = cx.obj('io', 8, Store(Base(lambda o: BitVecVal(0, 8)), bv(0), 8, req))
    need = simplify(ZeroExt(1, req) + hdr)
    toobig = UGT(need, BitVecVal(LIMIT[kind], 65))
    need = simplify(req + hdr)
    outs = cx.run(ALLOC[kind], [io.base])
    eng.cover([s for s in outs if not s.outcome])
    good = []
    for s in outs:
        if s.outcome == 'exit':
            eng.oblige(s, 'exit', 'only a request that does not fit ends the program', toobig)
            eng.oblige(s, 'exit', 'the exit code says that memory ran out', s.retval == 101)
            continue
        if s.outcome:
            eng.oblige(s, 'trap', 'the allocator does not crash', BoolVal(False))
            continue
        eng.oblige(s, 'exit', 'a request that does not fit ends the program', Not(toobig))
        ms = s.ghost.get('mallocs', [])
        eng.oblige(s, 'token', 'one block is taken from the system', BoolVal(len(ms) == 1))
        if len(ms) != 1:
            continue
        r = s.regions[ms[0]]
        rep = eng.reader(s).load(s.mem[io.name], bv(0), 8)
        eng.oblige(s, 'size', 'the data starts right after the header of the block', s.retval == r.base + hdr)
        eng.oblige(s, 'size', 'the reported size is that of the block without its header', rep == r.size - hdr)
        for n, f in C.block_facts(r.size, need):
            eng.oblige(s, 'size', n, f)
        eng.oblige(s, 'size', 'block sizes are powers of two', pow2(r.size))
        if kind == 'arc':
            eng.oblige(s, 'token', 'a new block has one owner', eng.reader(s).load(s.mem[r.name], bv(0), 4) == 0)
        good.append((s, r, rep))
    return good


def job_alloc(cx, kind):
    globals_shared(cx)
    do_alloc(cx, kind)


def job_cycle(cx, kind):
    """allocate, use in any way, release with any size that was in use"""
    globals_shared(cx)
    eng = cx.eng
    for s, r, rep in do_alloc(cx, kind):
        # whoever uses the block may have written anything into it, its owner count included
        f = eng.freshfn('payload')
        node = Copy(s.mem[r.name], bv(HDR[kind]), simplify(r.size - HDR[kind]), Base(lambda o: f(o)), bv(0))
        if kind == 'arc':
            node = Store(node, bv(0), 4, eng.fresh('owners', 32))
        s.mem[r.name] = node
        b = BitVec('released_bytes', 64)
        s.ghost['show'] = s.ghost['show'] + [('released_bytes', b)]
        s.pc += [c for c in C.free_pre(kind, b, r.size)]
        s.outcome = None
        outs = cx.run(FREE[kind], [simplify(r.base), b], s)
        eng.cover(outs)
        for s2 in outs:
            if s2.outcome:
                eng.oblige(s2, 'exit', 'releasing a block never ends the program', BoolVal(False))
                continue
            eng.oblige(s2, 'token', 'the block is given back to the system', BoolVal(not s2.info[r.name]['live']))
            eng.oblige(s2, 'token', 'nothing else is taken from the system', BoolVal(len(s2.ghost['mallocs']) == 1))
            for k in sorted({k for k, d in s2.ghost.get('deltas', [])}):
                eng.oblige(s2, 'account', 'allocating and releasing cancel out in every process-wide counter',
                           total_delta(s2, k) == 0)


def mk(mod, title):
    return Plain(mod, title, {'@malloc': c_malloc, '@free': c_free})
