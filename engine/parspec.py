"""The parallel loop (par/parfor) and the lock-free task stack: what other threads do is an arbitrary environment."""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, Extract
from sym import Engine, State, Region, EngineError, freevars, callee_name
from mem import Base, Store, Copy, bv
import contracts as C
import arcspec

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')
NODE = 40           # sizeof parfor_Task: next, run, control, start, end
PUSH = '@_ZN8lockfree5stackILj3EE4pushEPcS2_'
POP = '@_ZN8lockfree5stackILj3EE7try_popEv'


def worker_fn(mod):
    """what the threads are started with"""
    for f in mod.funcs.values():
        if f.defined:
            for b in f.blocks.values():
                for x in b.ins:
                    if x.op in ('call', 'invoke') and callee_name(x) == '@pthread_create':
                        return x.a[1][2][1][1]
    raise EngineError('no thread is started')


def mk(mod, title):
    cx = arcspec.Plain(mod, title, {
        '@pthread_mutex_lock': c_lock, '@pthread_mutex_unlock': c_unlock,
        '@_ZNSt18condition_variable10notify_oneEv': c_notify(False),
        '@_ZNSt18condition_variable10notify_allEv': c_notify(True),
        '@_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE': c_cvwait,
        '@_ZSt20__throw_system_errori': c_throw,
        '@sigemptyset': c_zero, '@sigaddset': c_zero, '@pthread_sigmask': c_zero, '@puts': c_zero,
    })
    eng, st = cx.eng, cx.st
    eng.env_loops = True
    eng.loop_sig = sig
    for k in ('locks', 'eff', 'seen', 'segs'):
        st.ghost[k] = []
    st.ghost['owned'] = None
    for name, (ty, init, const) in mod.globals.items():
        if not const and 'i64' == str(ty):
            eng.glob_init[name] = small_counter
    return cx


def small_counter(eng, st, r):
    # the number of worker threads
    v = eng.fresh('workers', 64)
    st.pc.append(ULE(v, bv(1 << 20)))
    st.mem[r.name] = Store(st.mem[r.name], bv(0), 8, v)
    st.info[r.name].update(write=False)


def sig(st):
    """what an iteration of a waiting or retrying loop has to leave as it found it"""
    return (tuple(x.get_id() for x in st.ghost['locks']), len(st.ghost['eff']), st.ghost['owned'], len(st.ghost['segs']),
            st.ghost.get('pushed') is None)


# ---- what the loop and the stack use of the system -------------------------------

def c_zero(eng, st, a, ins):
    return [(st, BitVecVal(0, 32))]


def c_throw(eng, st, a, ins):
    eng.oblige(st, 'trap', 'locks are used as they have to be', BoolVal(False))
    st.outcome = 'trap'
    return [(st, None)]


def c_lock(eng, st, a, ins):
    for m in st.ghost['locks']:
        eng.oblige(st, 'lock', 'no mutex is taken while another is held', BoolVal(False))
    st.ghost['locks'].append(simplify(a[0]))
    st.ghost['seen'] = []
    st.ghost['lockeff'] = len(st.ghost['eff'])
    if st.ghost.get('decd'):
        st.ghost['dec_m'] = simplify(a[0])
    return [(st, BitVecVal(0, 32))]


def c_unlock(eng, st, a, ins):
    ls = st.ghost['locks']
    eng.oblige(st, 'lock', 'only a mutex that is held is released', ls[0] == a[0] if ls else BoolVal(False))
    st.ghost['locks'] = ls[1:]
    return [(st, BitVecVal(0, 32))]


def c_notify(all_):
    def f(eng, st, a, ins):
        if st.ghost.get('decd'):
            eng.oblige(st, 'order', 'the mutex is taken between the last decrement and the notification',
                       BoolVal('dec_m' in st.ghost))
            st.ghost['notes'] = st.ghost.get('notes', ()) + ((all_, simplify(a[0])),)
        return [(st, None)]
    return f


def c_cvwait(eng, st, a, ins):
    ls = st.ghost['locks']
    m = eng.load(st, simplify(a[1]), 8, 'the lock given to wait')
    eng.oblige(st, 'lock', 'waiting releases the mutex that is held, and no other', m == ls[0] if len(ls) == 1 else BoolVal(False))
    h = st.ghost.get('waitcheck')
    if h:
        h(eng, st, simplify(a[0]))
    st.ghost['seen'] = []
    return [(st, None)]


# ---- lock-free stack -------------------------------------------------------------

def untag(w):
    return simplify((w << 3) & bv(0x0000ffffffffffff))


def tagof(w):
    return Extract(63, 45, w)


def observed(st, v):
    v = simplify(v)
    return any(v.eq(x) for x in st.ghost['obs'])


def head_phi(eng, st, ph, init):
    """a loop variable that starts as a value read from the head stays one"""
    if observed(st, init):
        v = eng.fresh('head', 64)
        st.ghost['obs'] = st.ghost['obs'] + [v]
        return v
    return None


def head_hook(what):
    def h(eng, st, kind, addr, args, order, res):
        def setres(s, v):
            if res is not None:
                s.frames[-1].env[res] = v
        if kind == 'load':
            v = eng.fresh('head', 64)
            st.ghost['obs'] = st.ghost['obs'] + [v]
            setres(st, v)
            return [st]
        if kind != 'cas':
            eng.oblige(st, 'order', 'the head only changes by compare and exchange', BoolVal(False))
            setres(st, eng.fresh('head', 64))
            return [st]
        c, new, ty = args
        c, new = simplify(c), simplify(new)
        eng.oblige(st, 'order', 'what is expected at the head was read from it', BoolVal(observed(st, c)))
        ok, no = st, st.clone()
        eng.oblige(ok, 'token', 'each successful exchange advances the tag of the head', tagof(new) == tagof(c) + 1)
        if what == 'push':
            eng.oblige(ok, 'order', 'publishing releases what was written before', BoolVal(order[0] in REL))
            f, l = ok.ghost['first'], ok.ghost['last']
            eng.oblige(ok, 'list', 'the new head is the first of the nodes pushed', untag(new) == f)
            nx = eng.reader(ok).load(ok.mem[ok.ghost['lastr']], bv(0), 8)
            eng.oblige(ok, 'list', 'the last of the nodes pushed goes on with the old head', nx == untag(c))
            for rn in (ok.ghost['lastr'], ok.ghost['firstr']):
                ok.info[rn].update(read=False, write=False)
        else:
            eng.oblige(ok, 'order', 'taking acquires what was written before', BoolVal(order[0] in ACQ))
            eng.oblige(ok, 'list', 'nothing is taken from an empty stack', untag(c) != 0)
            fs = [untag(new) == v for (a, v) in ok.ghost['reads'] if simplify(a).eq(untag(c)) or eng.decide(ok, a == untag(c)) is True]
            eng.oblige(ok, 'list', 'the new head is the successor read from the old one', Or(*fs) if fs else BoolVal(False))
            ok.ghost['taken'] = untag(c)
            ok.ghost['handed'] = True
        ok.ghost['eff'] = ok.ghost['eff'] + ['exchange']
        setres(ok, (c, BoolVal(True)))
        old = eng.fresh('head', 64)
        no.ghost['obs'] = no.ghost['obs'] + [old]
        setres(no, (old, BoolVal(False)))
        return [ok, no]
    return h


def job_push(cx, chain):
    """one node, or any chain of nodes given by its first and its last"""
    eng, st = cx.eng, cx.st
    eng.phi_hook = head_phi
    st.ghost['obs'] = []
    s = cx.obj('stack', 8, tag={'atomic': {0: head_hook('push')}})
    st.info[s.name].update(read=False, write=False)
    only8 = lambda eng, st, r, off, nn, write: And(ULE(nn, bv(8)), ULE(off, bv(8) - nn))
    l = cx.obj('last', 16, align=8, info=dict(read=only8, write=only8))
    f = l
    if chain:
        f = cx.obj('first', 16, align=8, info=dict(read=False, write=False))
    st.ghost.update(first=f.base, last=l.base, lastr=l.name, firstr=f.name)
    outs = cx.run(PUSH, [s.base, f.base, l.base])
    eng.cover(outs)
    for o in outs:
        eng.oblige(o, 'trap', 'pushing ends normally', BoolVal(not o.outcome))
        eng.oblige(o, 'token', 'the nodes are pushed exactly once', BoolVal(o.ghost['eff'] == ['exchange']))


def job_pop(cx):
    eng, st = cx.eng, cx.st
    eng.phi_hook = head_phi
    st.ghost['obs'] = []
    st.ghost['reads'] = []
    s = cx.obj('stack', 8, tag={'atomic': {0: head_hook('pop')}})
    st.info[s.name].update(read=False, write=False)

    def wild(eng, st, a, n, order):
        """the successor of a node of the stack, which other threads may be taking at the same time"""
        a = simplify(a)
        eng.oblige(st, 'mem', 'only nodes found at the head are read',
                   And(a != 0, Or(*[a == untag(v) for v in st.ghost['obs']])) if st.ghost['obs'] else BoolVal(False))
        eng.oblige(st, 'mem', 'only the link of a node is read', BoolVal(n == 8 and bool(order)))
        eng.oblige(st, 'mem', 'a node is left alone once it is taken', BoolVal(not st.ghost.get('handed')))
        v = eng.fresh('next', 64)
        st.pc += [ULT(v, bv(1 << 48)), Extract(2, 0, v) == 0]
        st.ghost['reads'] = st.ghost['reads'] + [(a, v)]
        return v
    eng.hooks['wild'] = wild
    outs = cx.run(POP, [s.base])
    eng.cover(outs)
    for o in outs:
        eng.oblige(o, 'trap', 'taking ends normally', BoolVal(not o.outcome))
        if o.outcome:
            continue
        if o.ghost['eff']:
            eng.oblige(o, 'token', 'one node is taken', BoolVal(len(o.ghost['eff']) == 1))
            eng.oblige(o, 'list', 'what is returned is what was taken', o.retval == o.ghost['taken'])
        else:
            eng.oblige(o, 'list', 'nothing is returned when nothing was taken', o.retval == 0)
            eng.oblige(o, 'list', 'nothing is taken only from an empty stack',
                       Or(*[untag(v) == 0 for v in o.ghost['obs']]))


# ---- running tasks ----------------------------------------------------------------

def c_pop(eng, st, a, ins):
    """contract of try_pop (proved above): nothing, or a node that now belongs to the caller alone"""
    eng.oblige(st, 'token', 'every task taken is run before the next is taken', BoolVal(st.ghost['owned'] is None))
    stack_is_shared(eng, st, a[0])
    st2 = st.clone()
    run = eng.fresh('task_run', 64)
    c = Store(Base(lambda o, f=eng.freshfn('task'): f(o)), bv(8), 8, run)
    r = eng.new_region(st, 'task', 16, 'obj', c, dict(write=False))
    st.ghost['owned'] = r.name
    st.ghost['owned_run'] = run
    return [(st, r.base), (st2, bv(0))]


def stack_is_shared(eng, st, p):
    """there is one stack, that of the program"""
    b = [x for x in eng.bases(simplify(p)) if x in st.regions and st.regions[x].tag.get('global')]
    g = eng.__dict__.setdefault('the_stack', [])
    ok = len(b) == 1
    if ok:
        off = simplify(p - st.regions[b[0]].base)
        g.append((st.regions[b[0]].tag['global'], str(off)))
    eng.oblige(st, 'token', 'tasks are pushed to and taken from the same stack', BoolVal(ok and len(set(g)) == 1))


def foreign(eng, st, fp, av):
    """a task taken from the stack is run"""
    rn = st.ghost['owned']
    r = st.regions[rn]
    eng.oblige(st, 'token', 'the task taken is run with itself as the argument', And(av[0] == r.base, fp == st.ghost['owned_run']))
    eng.oblige(st, 'lock', 'no mutex is held while a task runs', BoolVal(not st.ghost['locks']))
    st.ghost['owned'] = None
    # it may belong to a loop that ends right now
    st.info[rn].update(live=False, read=False)
    return [(st, None)]


def job_worker(cx):
    eng, st = cx.eng, cx.st
    eng.contracts[POP] = c_pop

    def ind(eng, st, fp, av, ins):
        if eng.scev:
            return [(st, None)]
        if st.ghost['owned'] is None:
            eng.oblige(st, 'token', 'a worker only runs tasks it has taken, once each', BoolVal(False))
            return [(st, None)]
        st.ghost['ran'] = True
        cx.ran = True
        return foreign(eng, st, fp, av)
    eng.hooks['indirect'] = ind
    cx.ran = False
    outs = cx.run(worker_fn(cx.mod), [bv(0)])
    for o in outs:
        eng.oblige(o, 'trap', 'a worker never stops', BoolVal(False))
    eng.oblige(st, 'vacuity', 'workers run tasks', BoolVal(cx.ran))


# ---- counting what is pending -------------------------------------------------------

def dec_hook(eng, st, kind, addr, args, order, res):
    if st.ghost.get('decd'):
        eng.oblige(st, 'uaf', 'the counter is left alone once it is decremented', BoolVal(False))
    if kind != 'rmw':
        if kind == 'load':
            eng.oblige(st, 'order', 'the counter is only decremented', BoolVal(True))
            st.frames[-1].env[res] = eng.fresh('pending', 32)
            return [st]
        eng.oblige(st, 'order', 'the counter is only decremented', BoolVal(False))
        if res is not None:
            st.frames[-1].env[res] = (eng.fresh('p', 32), eng.fresh('b', 'bool')) if kind == 'cas' else eng.fresh('p', 32)
        return [st]
    k, d, ty = args
    d = simplify(d if k == 'add' else -d)
    eng.oblige(st, 'order', 'the counter goes down by one', And(BoolVal(k in ('add', 'sub')), d == BitVecVal(-1, d.size())))
    eng.oblige(st, 'order', 'decrementing releases what the task has done', BoolVal(order[0] in REL))
    old = eng.fresh('pending', 32)
    st.ghost['decd'] = True
    st.ghost['old'] = old
    st.ghost['eff'] = st.ghost['eff'] + ['dec']
    if res is not None:
        st.frames[-1].env[res] = old
    return [st]


def decrement(eng, st, base):
    st.ghost['eff'] = []
    st.ghost['locks'] = []
    for k in ('decd', 'dec_m', 'notes'):
        st.ghost.pop(k, None)
    return [s for k, s in eng.run_entry(st, '@PBC_Decrement', [base])]


def job_decrement(cx):
    eng, st = cx.eng, cx.st
    p = cx.obj('pbc', 4, align=4, tag={'atomic': {0: dec_hook}})
    st.info[p.name].update(read=False, write=False)
    outs = decrement(eng, st, p.base)
    eng.cover(outs)
    for o in outs:
        eng.oblige(o, 'trap', 'decrementing ends normally', BoolVal(not o.outcome))
        eng.oblige(o, 'token', 'one task is counted once', BoolVal(o.ghost['eff'] == ['dec']))
        eng.oblige(o, 'lock', 'no mutex stays held', BoolVal(not o.ghost['locks']))
        if o.ghost.get('old') is None:
            continue
        notes = o.ghost.get('notes', ())
        eng.oblige(o, 'wake', 'whoever waits is woken when the last task is done (all that wait, as conditions are shared)',
                   Or(o.ghost['old'] != 1, BoolVal(any(x for x, c in notes))))


# ---- the parallel loop ----------------------------------------------------------------

def lemma(eng, st):
    """whole numbers: parts of equal size, rounded down, do not run over"""
    s, b, i, q, r = z3.Ints('s b i q r')
    sv = z3.Solver()
    sv.set('timeout', 60000)
    sv.add(s >= 0, b > 0, i >= 0, i < b, s == q * b + r, 0 <= r, r < b)
    # q >= 0, and (b - 1 - i) * q >= 0
    sv.add(Not(And(q >= 0, Implies(And(q >= 0, (b - 1 - i) * q >= 0), And(i * q <= (i + 1) * q, (i + 1) * q <= s)))))
    eng.oblige(st, 'lemma', '0 <= i < b gives i*(s/b) <= (i+1)*(s/b) <= s', BoolVal(sv.check() == z3.unsat))


class Nonlinear:
    """products and quotients of unknowns are taken as unknowns, known by instances of the lemma"""

    def __init__(self):
        self.m = {}
        self.facts = []

    def gen(self, f):
        f = simplify(f, som=True)
        done = {}

        def go(e):
            k = e.get_id()
            if k in done:
                return done[k]
            ch = [go(c) for c in e.children()]
            op = e.decl().kind()
            hard = op in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUDIV0) or \
                op == z3.Z3_OP_BMUL and sum(0 if z3.is_bv_value(c) else 1 for c in e.children()) > 1
            if hard:
                if op == z3.Z3_OP_BMUL:
                    cs = [c for c in e.children() if z3.is_bv_value(c)]
                    key = ('mul',) + tuple(sorted(c.get_id() for c in ch if not z3.is_bv_value(c)))
                    if key not in self.m:
                        v = z3.FreshConst(e.sort(), 'nl')
                        self.m[key] = (v, ch)
                        xs = [c for c in ch if not z3.is_bv_value(c)]
                        if len(xs) == 2:
                            for x, y in (xs, xs[::-1]):
                                self.facts += [Implies(x == 0, v == 0), Implies(x == 1, v == y)]
                    r = self.m[key][0]
                    for c in cs:
                        r = c * r
                else:
                    key = ('div',) + tuple(c.get_id() for c in ch)
                    if key not in self.m:
                        self.m[key] = (z3.FreshConst(e.sort(), 'nl'), ch)
                    r = self.m[key][0]
            elif ch:
                r = e.decl()(*ch)
            else:
                r = e
            done[k] = r
            return r
        return go(f)


def div_hook(eng, st, op, a, b):
    """a quotient of unknowns gets a name; what is known of it are instances of the lemma"""
    if op != 'udiv' or z3.is_bv_value(simplify(b)) and z3.is_bv_value(simplify(a)):
        return None
    a, b = simplify(a), simplify(b)
    k = (a.get_id(), b.get_id())
    if k not in eng.divs:
        q = eng.fresh('quot', a.size())
        eng.divs[k] = (q, a, b)
    q = eng.divs[k][0]
    if not eng.scev:
        f = Implies(b != 0, ULE(q, a))
        if not any(f.eq(c) for c in st.pc):
            st.pc.append(f)
    return q


def prove(eng, st, cat, name, f, idx=()):
    """an obligation over products: proved with the lemma's instances, products taken as unknowns"""
    nl = Nonlinear()
    hyp = []
    f = simplify(f)
    for q, s, b in eng.divs.values():
        if q.decl().name() not in freevars(f):
            continue
        for i in list(idx) + [simplify(b - 1)]:
            hyp.append(Implies(And(b != 0, ULT(i, b)), And(ULE(i * q, (i + 1) * q), ULE((i + 1) * q, s))))
    g = nl.gen(Implies(And(*hyp), f) if hyp else f)
    s2 = st.clone()
    s2.pc = [nl.gen(c) for c in s2.pc]
    s2.pc += nl.facts
    eng.oblige(s2, cat, name, g)


def pbc_hook(eng, st, kind, addr, args, order, res):
    """the counter while other threads work on the tasks"""
    if kind != 'load':
        eng.oblige(st, 'order', 'only finished tasks change the counter', BoolVal(False))
        if res is not None:
            st.frames[-1].env[res] = (eng.fresh('p', 32), eng.fresh('b', 'bool')) if kind == 'cas' else eng.fresh('p', 32)
        return [st]
    v = eng.fresh('pending', 32)
    st.frames[-1].env[res] = v
    st.ghost['last'] = (v, order[0])
    st.ghost['seen'] = st.ghost['seen'] + [(v, order[0])] if st.ghost['locks'] else []
    return [st]


def seg(eng, st, p):
    """-> fields of the task at p"""
    return [simplify(eng.load(st, simplify(p + o), 8, 'task')) for o in (0, 8, 16, 24, 32)]


def job_parallel(cx):
    eng, st = cx.eng, cx.st
    lemma(eng, st)
    eng.divs = {}
    eng.hooks['div'] = div_hook
    eng.fork_select = True
    size, per = cx.var('size'), cx.var('per_batch')
    st.pc.append(per != 0)
    run = BitVec('parfor_run', 64)
    st.pc.append(UGE(run, bv(4096)))
    only8 = lambda eng, st, r, off, nn, write: And(ULE(nn, bv(8)), ULE(off, bv(8) - nn))
    ctl = cx.obj('control', 16, Store(Base(lambda o, f=eng.freshfn('ctl'): f(o)), bv(0), 8, bv(0)),
                 align=8, info=dict(write=only8))
    eng.contracts[POP] = c_pop

    def check_fields(s, run_, ctl_, who):
        eng.oblige(s, 'task', '%s runs what it has to' % who, run_ == run)
        eng.oblige(s, 'task', '%s knows its loop' % who, ctl_ == ctl.base)

    def c_push(eng, st, a, ins):
        s, first, last = [simplify(x) for x in a]
        stack_is_shared(eng, st, s)
        if st.ghost.get('pushed') is not None:
            raise EngineError('tasks are pushed more than once')
        p = simplify(eng.load(st, ctl.base, 8, 'control'))
        bs = [b for b in eng.bases(p) if b in st.regions]
        eng.oblige(st, 'order', 'the loop has its counter before a task is pushed', BoolVal(len(bs) == 1))
        if len(bs) != 1:
            st.outcome = 'trap'
            return [(st, None)]
        pr = st.regions[bs[0]]
        eng.oblige(st, 'order', 'the counter is a whole one', p == pr.base)
        pend = simplify(eng.load(st, p, 4, 'counter'))
        n = simplify(ZeroExt(32, pend) - 1)
        eng.oblige(st, 'count', 'the counter has one for each task pushed and one for the task kept', pend >= 2)
        prove(eng, st, 'count', 'as many tasks are pushed as are counted', last == first + (n - 1) * NODE)
        i = eng.fresh('i', 64)
        eng.P.lia.range[i.decl().name()] = [0, 1 << 21]
        s2 = st.clone()
        s2.ghost['show'] = s2.ghost['show'] + [('task', i), ('tasks', pend)]
        s2.pc += [ULT(i, n), ULE(i, bv(1 << 21))]
        nx, ru, co, s0, e0 = seg(eng, s2, first + i * NODE)
        check_fields(s2, ru, co, 'every task pushed')
        prove(eng, s2, 'range', 'the part of a task is in order and inside the loop', And(ULE(s0, e0), ULE(e0, size)), idx=[i])
        s3 = s2.clone()
        s3.pc.append(ULT(i + 1, n))
        eng.oblige(s3, 'list', 'the tasks pushed are linked', nx == first + (i + 1) * NODE)
        _, _, _, s1, e1 = seg(eng, s3, first + (i + 1) * NODE)
        prove(eng, s3, 'range', 'the part of a task starts where that of the one before ends', s1 == e0)
        _, _, _, sa, _ = seg(eng, st, first)
        _, _, _, _, eb = seg(eng, st, last)
        # from now on the tasks pushed belong to whoever takes them, and the counter to all
        tr = st.regions[[b for b in eng.bases(first) if b in st.regions][0]]
        lo = simplify(first - tr.base)

        def mine(eng, st, r, off, nn, write):
            return Or(ULE(off + nn, lo), UGE(off, simplify(lo + n * NODE)))
        st.info[tr.name].update(read=mine, write=mine)
        st.regions[pr.name] = Region(pr.name, pr.base, pr.size, pr.kind, dict(pr.tag, atomic={0: pbc_hook}))
        st.info[pr.name].update(read=False, write=False)
        st.ghost['pushed'] = (sa, eb)
        st.ghost['pbc'] = (pr.name, p)
        st.ghost['pend'] = pend
        st.ghost['waitcheck'] = waitcheck
        return [(st, None)]
    eng.contracts[PUSH] = c_push

    def ind(eng, st, fp, av, ins):
        if eng.scev:
            return [(st, None)]
        if st.ghost['owned'] is not None:
            return foreign(eng, st, fp, av)
        eng.oblige(st, 'lock', 'no mutex is held while a task runs', BoolVal(not st.ghost['locks']))
        eng.oblige(st, 'task', 'the task kept runs what it has to', fp == run)
        _, _, co, s0, e0 = seg(eng, st, av[0])
        eng.oblige(st, 'task', 'the task kept knows its loop', co == ctl.base)
        p = simplify(eng.load(st, ctl.base, 8, 'control'))
        st.ghost['segs'] = st.ghost['segs'] + [(s0, e0)]
        st.ghost['ctl'] = p
        return [(st, None)]
    eng.hooks['indirect'] = ind

    def waitcheck(eng, st, cv):
        seen = st.ghost['seen']
        eng.oblige(st, 'wake', 'with the mutex held there was still something to wait for', seen[-1][0] != 0 if seen else BoolVal(False))
        # the mutex and condition that the last task to finish will use
        s2 = st.clone()
        rn, p = st.ghost['pbc']
        pr = s2.regions[rn]
        s2.regions[rn] = Region(pr.name, pr.base, pr.size, pr.kind, dict(pr.tag, atomic={0: dec_hook}))
        m = st.ghost['locks'][0] if st.ghost['locks'] else None
        s2.frames = []
        s2.ghost['show'] = st.ghost['show']
        for o in decrement(eng, s2, p):
            if not o.ghost.get('notes'):
                continue
            eng.oblige(o, 'wake', 'the last task takes the mutex that is held here', BoolVal(False) if m is None else o.ghost['dec_m'] == m)
            eng.oblige(o, 'wake', 'the last task notifies the condition waited for', Or(*[c == cv for _, c in o.ghost['notes']]))

    outs = cx.run('@parallel_for', [size, per, run, ctl.base])
    eng.cover(outs)
    for o in outs:
        eng.oblige(o, 'trap', 'the loop ends normally', BoolVal(not o.outcome))
        if o.outcome:
            continue
        eng.oblige(o, 'lock', 'no mutex stays held', BoolVal(not o.ghost['locks']))
        eng.oblige(o, 'token', 'every task taken is run', BoolVal(o.ghost['owned'] is None))
        segs = o.ghost['segs']
        eng.oblige(o, 'token', 'the calling thread runs one task of its own', BoolVal(len(segs) == 1))
        if len(segs) != 1:
            continue
        s0, e0 = segs[0]
        if o.ghost.get('pushed') is None:
            prove(eng, o, 'range', 'the only task does it all', And(s0 == 0, e0 == size))
            eng.oblige(o, 'count', 'the only task is not counted', o.ghost['ctl'] == 0)
            continue
        sa, eb = o.ghost['pushed']
        prove(eng, o, 'range', 'the parts of all tasks make up the loop',
              Or(And(sa == 0, s0 == eb, e0 == size), And(s0 == 0, e0 == sa, eb == size)))
        prove(eng, o, 'range', 'the part of the task kept is in order and inside the loop', And(ULE(s0, e0), ULE(e0, size)))
        eng.oblige(o, 'count', 'the task kept is counted too', o.ghost['ctl'] == o.ghost['pbc'][1])
        v, order = o.ghost.get('last', (None, None))
        eng.oblige(o, 'wait', 'it has been seen that no task is left before the loop returns', BoolVal(False) if v is None else v == 0)
        eng.oblige(o, 'order', 'what the tasks have done is acquired', BoolVal(order in ACQ))


# ---- one task -------------------------------------------------------------------------

def run_task(cx, st, run, ctlr, body, counted, size):
    """the function that the loop runs for each task, for one task of it"""
    eng = cx.eng
    s0, e0 = eng.fresh('start', 64), eng.fresh('end', 64)
    f = eng.freshfn('task')
    c = Store(Store(Store(Base(lambda o: f(o)), bv(16), 8, ctlr.base), bv(24), 8, s0), bv(32), 8, e0)
    t = eng.new_region(st, 'task', NODE, 'obj', c, dict(write=False))
    p = None
    if counted:
        p = eng.new_region(st, 'pbc', 4, 'obj', info=dict(read=False, write=False))
        st.mem[ctlr.name] = Store(st.mem[ctlr.name], bv(0), 8, p.base)
    st.info[ctlr.name].update(write=False)
    st.ghost['body'] = []
    st.ghost['dec'] = 0

    def c_body(eng, s, a, ins):
        eng.oblige(s, 'order', 'a task is counted as done only when its body has ended', BoolVal(s.ghost['dec'] == 0))
        s.ghost['body'] = s.ghost['body'] + [tuple(a)]
        return [(s, None)]

    def c_dec(eng, s, a, ins):
        eng.oblige(s, 'count', 'a task is counted as done by the counter of its loop', a[0] == p.base if p else BoolVal(False))
        eng.oblige(s, 'order', 'a task is counted as done when its body has ended', BoolVal(len(s.ghost['body']) == 1))
        s.ghost['dec'] += 1
        # the loop may return now: nothing of it may be touched
        for r in (t, ctlr) + ((p,) if p else ()):
            s.info[r.name].update(live=False, read=False, write=False)
        return [(s, None)]
    eng.contracts['@body_of_loop'] = c_body
    eng.contracts['@PBC_Decrement'] = c_dec
    nm = [k for k, s in eng.globreg.items() if simplify(run).eq(s)]
    if not nm:
        eng.oblige(st, 'task', 'the loop is given a function to run', BoolVal(False))
        return
    frames, st.frames = st.frames, []
    outs = [s for k, s in eng.run_entry(st, nm[0], [t.base])]
    for o in outs:
        eng.oblige(o, 'trap', 'a task ends normally', BoolVal(not o.outcome))
        b = o.ghost['body']
        eng.oblige(o, 'task', 'a task runs the body exactly once', BoolVal(len(b) == 1))
        if len(b) == 1:
            eng.oblige(o, 'task', 'the body gets the part of its task', And(b[0][0] == body, b[0][1] == s0, b[0][2] == e0))
        eng.oblige(o, 'count', 'a task is counted as done exactly once, if it is counted', BoolVal(o.ghost['dec'] == (1 if counted else 0)))


def job_task(cx):
    eng, st = cx.eng, cx.st
    size, per = cx.var('size'), cx.var('per_batch')
    body = cx.obj('body', 4, info=dict(write=False))
    st.ghost['calls'] = 0

    def c_parfor(eng, st, a, ins):
        eng.oblige(st, 'arg', 'the loop is given its size', a[0] == size)
        eng.oblige(st, 'arg', 'the loop is given its least part', a[1] == per)
        bs = [b for b in eng.bases(simplify(a[3])) if b in st.regions]
        eng.oblige(st, 'arg', 'the loop is given its control block', BoolVal(len(bs) == 1))
        if len(bs) == 1:
            r = st.regions[bs[0]]
            eng.oblige(st, 'arg', 'the counter is the first of the control block', a[3] == r.base)
            eng.oblige(st, 'arg', 'there is no counter at first', eng.load(st, r.base, 8) == 0)
            for counted in (True, False):
                run_task(cx, st.clone(), a[2], r, body.base, counted, size)
        st.ghost['calls'] += 1
        return [(st, None)]
    eng.contracts['@parallel_for'] = c_parfor
    outs = cx.run('@use_parallel_for', [size, per, body.base])
    eng.cover(outs)
    for o in outs:
        eng.oblige(o, 'trap', 'the loop ends normally', BoolVal(not o.outcome))
        eng.oblige(o, 'task', 'the loop runs once', BoolVal(o.ghost['calls'] == 1))


JOBS = [('a parallel loop', job_parallel, ()), ('one task of a loop', job_task, ()), ('counting tasks that are done', job_decrement, ()),
        ('a worker thread', job_worker, ())]
STACK = [('push one node', job_push, (False,)), ('push a chain of nodes', job_push, (True,)), ('take a node', job_pop, ())]
