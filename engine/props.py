"""The properties: which entry points of the real code are put under contract, and how failures are replayed."""
import os
import subprocess

import build
import vecspec
import rangespec
import viewspec
import arcspec
import parspec
import strspec
import catspec
import movespec
from framework import Job, Prop, costs

UNITS = {}
PROPS = {}


def unit(name, src, defs=(), **kw):
    UNITS[name] = build.Unit(name, src, defs, **kw)


for _n, _e in vecspec.ELEMS.items():
    unit(_n, 'harness/vec_ops.cpp', ['T_=' + _e.T, 'NM=' + _n, 'HAS_COPY=%d' % (1 if _e.share else 0)])


# ---- fu::vec ------------------------------------------------------------------------

EDIT = ['push', 'unshift', 'insert', 'pop', 'shift1', 'shift', 'shift_pop', 'resize', 'resize_junk', 'grow', 'grow_junk',
        'shrink', 'clear', 'splice', 'accessors', 'ctor', 'init_copy', 'init_move']
SPLICE = ['splice_empty', 'splice_mv', 'append_mv', 'append0_mv', 'splice_copy', 'append_copy', 'append0_copy',
          'splice_vec', 'append_vec']
COPYOPS = ['copy_ctor', 'copy_assign']
MOVEOPS = ['dtor', 'ctor', 'move_ctor', 'destructive_move', 'destructive_move_or_default', 'move_assign', 'swap']
ROOM = ['reserve', 'reserve0', 'data_mut', 'index_mut', 'grow', 'resize', 'push', 'accessors']


def vjobs(elems, ops, kinds=None, full=False):
    """full: positions and counts outside the array from every storage form, not only from a sole owner's"""
    out = []
    for j in vecspec.jobs(elems, ops):
        if kinds and not kinds(j.kinds):
            continue
        if j.case != 'in' and not full and ('uniq' not in j.kinds[0] or j.kinds[-1] in ('shared', 'same')):
            continue
        E = vecspec.ELEMS[j.ename]
        w = 8.0 if j.ename in ('el',) else 2.0
        c = w * (1 + j.kinds.count('shared')) * (3 if 'splice' in j.op else 2 if 'append' in j.op else 1)
        out.append(Job(j.ename, j.title(), lambda m, t, E=E: vecspec.Ctx(m, E, t), j.fn, (j.kinds,), c,
                       replay=('vec', j.ename, j.op)))
    return out


VIEWDEST = {'c8': 'char', 'c1': 'uint64_t', 'c4': 'short'}


def vec_replay(bad, d, seed, secs):
    """search for a failing input of the operations whose obligations failed, on the real headers under ASan"""
    pairs = []
    for j, r, fo in bad:
        k = (j.replay[0] != 'vec', j.replay[1], j.replay[2])
        if k not in pairs:
            pairs.append(k)
    pairs = pairs[:32]
    from concurrent.futures import ThreadPoolExecutor
    kinds = sorted({p[:2] for p in pairs})

    def comp(k):
        rng, e = k
        E = vecspec.ELEMS[e]
        defs = ['T_=' + E.T, 'NM=' + e, 'HAS_COPY=%d' % (1 if E.share else 0)]
        if rng:
            defs += ['RANGES', 'SLATE=5'] + (['DEST_=' + VIEWDEST[e]] if e in VIEWDEST else [])
        exe = build.compile_cxx('replay/vec_replay.cpp', os.path.join(d, 'vr_%d%s' % (rng, e)), defs)
        return k, (exe, ' '.join('-D' + x for x in defs))
    with ThreadPoolExecutor(8) as ex:
        exes = dict(ex.map(comp, kinds))
    per = max(8, min(30, int(secs * 8 / max(1, len(pairs)))))

    def one(k):
        rng, e, op = k
        p = subprocess.run([exes[k[:2]][0], 'search', op, str(per), str(seed)], capture_output=True, text=True,
                           timeout=per + 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        return k, p.stdout
    txt = []
    found = False
    with ThreadPoolExecutor(8) as ex:
        for k, o in ex.map(one, pairs):
            rng, e, op = k
            if 'FOUND' in o:
                found = True
                case = [l for l in o.split('\n') if l.startswith('FOUND')][0][6:]
                txt += ['failing input on the real code (operation, kinds, sizes/capacities, parameters): fu::vec<%s> %s' %
                        (vecspec.ELEMS[e].T, case),
                        '  ' + ' '.join(l for l in o.split('\n') if l.startswith('FAIL')),
                        '  to repeat: g++ -std=c++17 -O1 -g -DNDEBUG -fsanitize=address -I/repo/include -Iharness %s '
                        'replay/vec_replay.cpp -o vr && ./vr case %s' % (exes[k[:2]][1], case)]
            else:
                txt.append('searched fu::vec<%s> %s: %s' % (vecspec.ELEMS[e].T, op, o.strip()[-60:]))
    return found, txt


def replay_by_kind(bad, d, seed, secs):
    groups = {}
    for b in bad:
        if b[0].replay:
            groups.setdefault({'range': 'vec', 'view': 'vec'}.get(b[0].replay[0], b[0].replay[0]), []).append(b)
    found, txt = False, []
    for k, bs in groups.items():
        f, t = REPLAY[k](bs, d, seed, secs)
        found = found or f
        txt += t
    return found, txt


def flat_replay(bad, d, seed, secs):
    """a driver of its own per source: job.replay = ('flat', source, defines, arguments, compiler flags)"""
    todo = sorted({b[0].replay[1:] for b in bad}, key=str)[:24]
    from concurrent.futures import ThreadPoolExecutor
    per = max(5, min(30, int(secs * 8 / max(1, len(todo)))))

    def one(k):
        src, defs, args, flags = k
        exe = os.path.join(d, 'fr%d' % todo.index(k))
        sani = [f[3:] for f in flags if f.startswith('-S=')]
        build.compile_cxx(src, exe, defs, sanitize=sani[0] if sani else '', flags=[f for f in flags if f[:3] != '-S='])
        try:
            p = subprocess.run([exe, 'search', str(per), str(seed)] + list(args), capture_output=True, text=True, errors='replace',
                               timeout=per + 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return k, 'the search did not end'
        return k, p.stdout + ('' if p.returncode == 0 else 'FOUND (the driver stopped)\nFAIL ' +
                              ' '.join(p.stderr.strip().split('\n')[:3]))
    found, txt = False, []
    with ThreadPoolExecutor(8) as ex:
        for k, o in ex.map(one, todo):
            src, defs, args, flags = k
            if 'FOUND' in o:
                found = True
                ls = o.split('\n')
                case = [l for l in ls if l.startswith('FOUND')][0][6:]
                txt += ['failing input on the real code: ' + ' '.join(args) + ' ' + case,
                        '  ' + ' '.join(l for l in ls if l.startswith('FAIL')),
                        '  to repeat: g++ -std=c++17 -O1 -g -DNDEBUG -w -I/repo/include -Iharness %s %s %s -o r && ./r case %s %s' %
                        (' '.join('-D' + x for x in defs), src, ' '.join(flags), case, ' '.join(args))]
            else:
                txt.append('searched %s %s: %s' % (src, ' '.join(args), o.strip()[-80:]))
    return found, txt


REPLAY = {'vec': vec_replay, 'flat': flat_replay}

VEC_ASSUME = [
    'old items plus added items, counted before any removal, are at most 2^31-2 (limit of the 32-bit size)',
    'source lengths and requested sizes are not negative',
    'element constructors, moves and destructors of non-trivial elements are abstract: a copy makes a new element with the '
    'same value, a move transfers identity, relocation by memcpy is allowed, an all-zero element owns nothing',
    'objects the environment passes do not overlap and are separated by at least one byte',
    'machine integers, pointers and bytes are exact bit vectors; addresses lie in [4096, 2^47)',
]
VEC_TRUST = ['contract of the block allocator (fu_ARC_ALLOC/DEALLOC, fu_UNIQ_ALLOC/DEALLOC), proved separately for C09',
             'memcpy, memmove, memset, memcmp of libc']


def prop(pid, jobs, under, assumptions=(), trusted=(), **kw):
    PROPS[pid] = Prop(pid, jobs, list(UNITS.values()), replay=replay_by_kind, assumptions=assumptions, trusted=trusted,
                      under=under, **kw)


def both(quick, thorough):
    return lambda tier: quick() if tier == 'quick' else thorough()


ALL = ['c1', 'c2', 'c4', 'c8', 'b24', 'el', 'un']

prop('C01', both(lambda: vjobs(['c1', 'c8', 'el', 'un'], EDIT), lambda: vjobs(ALL, EDIT, full=True)),
     ['fu::vec<T>::' + x for x in EDIT] + ['fu::vec<T>::_Splice'], VEC_ASSUME, VEC_TRUST)
prop('C02', both(lambda: vjobs(['c1', 'c8', 'el', 'un'], SPLICE), lambda: vjobs(ALL, SPLICE, full=True)),
     ['fu::vec<T>::' + x for x in SPLICE] + ['fu::vec<T>::UNSAFE__self_splice', 'fu::vec<T>::_Splice'], VEC_ASSUME, VEC_TRUST)


def fam(ops, elems, kinds=None):
    return vjobs(elems, ops, kinds)


ROOMQ = ROOM + ['index']
anyshared = lambda k: 'shared' in k or 'same' in k
OPS_ALL = sorted(set(EDIT + SPLICE + COPYOPS + MOVEOPS + ROOM))


def c03(elems):
    return vjobs(elems, OPS_ALL, anyshared) + vjobs(elems, ['copy_ctor', 'copy_assign'], lambda k: not anyshared(k))


prop('C03', both(lambda: c03(['c1', 'el']) + vjobs(['c8'], COPYOPS + ROOM), lambda: c03(['c1', 'c2', 'c4', 'c8', 'b24', 'el'])),
     ['fu::vec<T>::' + x for x in OPS_ALL], VEC_ASSUME, VEC_TRUST)
prop('C04', both(lambda: vjobs(['el', 'un'], OPS_ALL), lambda: vjobs(['el', 'un', 'c8'], OPS_ALL)),
     ['fu::vec<T>::' + x for x in OPS_ALL], VEC_ASSUME, VEC_TRUST)
prop('C05', both(lambda: vjobs(['c1', 'c4', 'c8', 'el', 'un'], ROOM), lambda: vjobs(ALL, ROOM)),
     ['fu::vec<T>::' + x for x in ROOM], VEC_ASSUME, VEC_TRUST)


# ---- slices -------------------------------------------------------------------------

for _n in ('c1', 'c4', 'c8', 'el', 'un'):
    _e = vecspec.ELEMS[_n]
    unit('r' + _n, 'harness/range_ops.cpp', ['T_=' + _e.T, 'NM=' + _n, 'HAS_COPY=%d' % (1 if _e.share else 0), 'SLATE=5'])


def rjobs(elems, ops, kinds=None, full=False):
    out = []
    for j in rangespec.jobs(elems, ops):
        if kinds and not kinds(j.kinds):
            continue
        if j.case in ('lo', 'hi', 'dl', 'dh') and not full and ('uniq' not in j.kinds[0] or j.kinds[-1] in ('shared', 'same')):
            continue
        E = vecspec.ELEMS[j.ename]
        w = 8.0 if j.ename in ('el',) else 2.0
        c = w * (1 + j.kinds.count('shared')) * (3 if 'splice' in j.op else 2 if 'append' in j.op else 1)
        out.append(Job('r' + j.ename, j.title(), lambda m, t, E=E: vecspec.Ctx(m, E, t), j.fn, (j.kinds,), c,
                       replay=('range', j.ename, j.op)))
    return out


RANGE_EDIT = [o for o in rangespec.OPS]


def c08q():
    # the most expensive combinations of items with destructors, and of two shared slices, only in the thorough tier
    out = []
    cost = costs()
    for j in rjobs(['c1', 'el', 'un'], RANGE_EDIT):
        if j.unit == 'rel' and len(j.args[0]) > 1:
            ks = j.args[0]
            if 'shared' in ks[0] and ks[-1] != 'uniq' or ks[-1] in ('same', 'shared'):
                continue
        if cost.get(j.title, 0) > 13:
            continue
        out.append(j)
    return out


prop('C08', both(c08q, lambda: rjobs(['c1', 'c4', 'c8', 'el', 'un'], RANGE_EDIT, full=True)),
     ['fu::vec_range_mut<T>::' + x[2:] for x in RANGE_EDIT], VEC_ASSUME, VEC_TRUST)


# ---- access, views and slices -------------------------------------------------------

def wjobs(elems, table, unitname=lambda e: 'r' + e):
    out = []
    for j in viewspec.jobs(elems, table):
        E = vecspec.ELEMS[j.ename]
        out.append(Job(unitname(j.ename), j.title(), lambda m, t, E=E: vecspec.Ctx(m, E, t), j.fn, (j.kinds,), 1.0,
                       replay=('view', j.ename, j.op)))
    return out


for _n, _d in (('c8', 'char'), ('c1', 'uint64_t'), ('c4', 'short')):
    _e = vecspec.ELEMS[_n]
    unit('i' + _n, 'harness/range_ops.cpp', ['T_=' + _e.T, 'NM=' + _n, 'HAS_COPY=1', 'SLATE=5', 'DEST_=' + _d])
prop('C06', both(lambda: wjobs(['c1', 'c8', 'el', 'un'], viewspec.ACCESS), lambda: wjobs(['c1', 'c4', 'c8', 'el', 'un'], viewspec.ACCESS)),
     ['access: ' + x for x in viewspec.ACCESS], VEC_ASSUME, VEC_TRUST)


def c07(elems, copies):
    return (wjobs(elems, viewspec.TAKE) + wjobs(copies, viewspec.SLICE) +
            wjobs(['c8'], viewspec.into_ops(1), lambda e: 'ic8') + wjobs(['c1'], viewspec.into_ops(8), lambda e: 'ic1') +
            wjobs(['c4'], viewspec.into_ops(2), lambda e: 'ic4'))


prop('C07', both(lambda: c07(['c1', 'c8', 'el'], ['c8']), lambda: c07(*[['c1', 'c4', 'c8', 'el', 'un']] * 2)),
     ['taking: ' + x for x in list(viewspec.TAKE) + list(viewspec.SLICE)], VEC_ASSUME, VEC_TRUST)


# ---- block allocator ----------------------------------------------------------------

ARC_CPP = os.path.join(build.REPO, 'include/fu/mem/arc.cpp')
unit('arc', ARC_CPP)
unit('arcret', ARC_CPP, ['fu_RETAIL=1'])


def c09(tier):
    out = []
    for u, what in (('arc', ''), ('arcret', ' retail')):
        for kind in ('arc', 'uniq'):
            for n, f in (('allocate', arcspec.job_alloc), ('allocate, release', arcspec.job_cycle)):
                out.append(Job(u, '%s %s block%s' % (n, {'arc': 'shareable', 'uniq': 'private'}[kind], what), arcspec.mk, f, (kind,),
                               replay=('flat', 'replay/arc_replay.cpp', ('fu_RETAIL=1',) if u == 'arcret' else (), (), ())))
    return out


prop('C09', c09, ['fu_ARC_ALLOC', 'fu_ARC_DEALLOC', 'fu_UNIQ_ALLOC', 'fu_UNIQ_DEALLOC', 'fu_POW2MEM_RoundUp', 'next_pow2'],
     ['malloc succeeds and returns 16-byte aligned memory of the size asked for'], ['malloc, free, exit of libc'])


# ---- comparison and search ------------------------------------------------------------

unit('str', 'harness/str_ops.cpp')


def sjobs(js, rp):
    return [Job('str', j.title(), lambda m, t, E=vecspec.ELEMS[j.ename]: vecspec.Ctx(m, E, t), j.fn, tuple(j.kinds), 1.0,
                replay=('flat', 'replay/str_replay.cpp', (), (rp(j),), ('-S=address',))) for j in js]


def c11g(j):
    return 'find' if 'find' in j.op or 'match' in j.op else 'cmp'


def c11q():
    # wide items: the forms that differ, the others only in the thorough tier
    return [j for j in strspec.compare_jobs(('c1', 'c8')) if j.ename == 'c1' or j.op in ('eq_ww', 'ne_ww', 'eq_vw')]


prop('C11', both(lambda: sjobs(c11q() + strspec.search_jobs(), c11g),
                 lambda: sjobs(strspec.compare_jobs(('c1', 'c2', 'c8', 'b24')) + strspec.search_jobs(), c11g)),
     ['operator==, !=, <, <=, >, >=', 'fu::strcmp', 'fu::lfind', 'fu::lmatch', 'fu::rmatch'], VEC_ASSUME,
     ['memcmp, memmem of libc'])


# ---- decimal text and literals

prop('C12', lambda tier: sjobs(strspec.text_jobs(), lambda j: 'dec' if 'dec' in j.op else 'lit'),
     ['fu::u64dec', 'fu::i64dec', 'fu::f64dec', 'fu::f32dec', 'fu::booldec', 'fu::to_str', 'fu::cstr2vec_view', 'fu::cstr2vec_copy',
      'fu::strlit::operator fu::str', 'operator""_fu', 'operator""_view'], VEC_ASSUME,
     ['snprintf of libc ("%f" of a double: 3 to 317 characters, cut to the buffer and ended by a zero), strlen of libc'])


# ---- concatenation, array literals

for _n in ('c1', 'c8', 'el', 'un'):
    _e = vecspec.ELEMS[_n]
    unit('k' + _n, 'harness/cat_ops.cpp', ['T_=' + _e.T, 'NM=' + _n, 'HAS_COPY=%d' % (1 if _e.share else 0), 'SLATE=5',
                                           'STRLIT=%d' % (_n == 'c1')])


def catdefs(e, more=()):
    E = vecspec.ELEMS[e]
    return ('T_=' + E.T, 'NM=' + e, 'HAS_COPY=%d' % (1 if E.share else 0), 'SLATE=5', 'STRLIT=%d' % (e == 'c1'), 'RANGES') + tuple(more)


def cjobs(elems, keep=lambda j: True):
    return [Job('k' + j.ename, j.title(), lambda m, t, E=vecspec.ELEMS[j.ename]: vecspec.Ctx(m, E, t), j.fn, tuple(j.kinds), 1.0,
                replay=('flat', 'replay/cat_replay.cpp', catdefs(j.ename), (j.op,), ('-S=address',)))
            for e in elems for j in catspec.jobs(e) if keep(j)]


def c10q():
    # the most expensive combinations only in the thorough tier
    cost = costs()
    wide = ('cat_V_V', 'cat_V_x', 'cat_x_V', 'cat_v_v', 'cat_V_w', 'cat_w_V', 'cat_w_w', 'cat_v_x', 'cat_s_w', 'add_v_V', 'add_v_w', 'add_rm_v')
    return [j for j in cjobs(['c1', 'c8', 'el', 'un'], lambda j: j.ename != 'c8' or j.op in wide or j.op[:3] in ('lit', 'set'))
            if cost.get(j.title, 0) < 2]


prop('C10', both(c10q, lambda: cjobs(['c1', 'c8', 'el', 'un'])),
     ['operator+, operator+= of concat.h and concat_one.h', 'fu::vec<T>(slate<N, T>&&)', 'fu::vec<T>(T(&&)[N])',
      'fu::vec<T>::operator=(slice)'], VEC_ASSUME, VEC_TRUST)


# ---- bulk swap and assignment

for _n, _u in (('c1', 'char'), ('c8', 'uint64_t'), ('b24', 'Big24'), ('el', ''), ('un', '')):
    unit('m' + _n, 'harness/mem_ops.cpp', ['T_=' + vecspec.ELEMS[_n].T, 'NM=' + _n, 'SLATE=5'] + (['FROM_=' + _u] if _u else []))
MIXED = (('char', 'uint64_t', 1, 8), ('uint64_t', 'char', 8, 1), ('Big24', 'uint64_t', 24, 8), ('short', 'uint32_t', 2, 4))
for _t, _u, _a, _b in MIXED:
    unit('mx%d_%d' % (_a, _b), 'harness/mem_ops.cpp', ['T_=' + _t, 'FROM_=' + _u, 'NM=x', 'SLATE=5'])
unit('memswap', os.path.join(build.REPO, 'include/fu/mem/memswap.cpp'))


def c13(elems, plain):
    rp = lambda g, e='c8', u='char': ('flat', 'replay/cat_replay.cpp', catdefs(e, ('MEM',) + (('FROM_=' + u,) if u else ())), (g,), ('-S=address',))
    out = [Job('memswap', 'memswap, ' + h, lambda m, t: arcspec.Plain(m, t), movespec.job_memswap, (h,), replay=rp('memswap'))
           for h in movespec.MEMSWAP]
    for t, u, a, b in MIXED:
        out.append(Job('mx%d_%d' % (a, b), 'view of %s from view of %s' % (t, u), lambda m, t: arcspec.Plain(m, t),
                       movespec.job_bytes('@x_vset_m_w', a, b), replay=rp('set', {1: 'c1', 2: 'c2', 8: 'c8', 24: 'b24'}[a], u)))
    for j in movespec.jobs(elems, plain):
        out.append(Job('m' + j.ename, j.title(), lambda m, t, E=vecspec.ELEMS[j.ename]: vecspec.Ctx(m, E, t), j.fn, tuple(j.kinds), 1.0,
                       replay=rp('set' if 'set' in j.op else 'swap', j.ename, vecspec.ELEMS[j.ename].T if 'set' in j.op else '')))
    return out


prop('C13', both(lambda: c13(['c1', 'c8', 'el', 'un'], ['c1', 'c8']), lambda: c13(['c1', 'c8', 'b24', 'el', 'un'], ['c1', 'c8', 'b24'])),
     ['fu::memswap', 'fu::view_assign', 'fu::view_swap'], VEC_ASSUME +
     ['swapped stretches are the same or do not overlap (asserted by the debug build for assignments)'], VEC_TRUST)


# ---- parallel loops, the task stack

unit('par', 'harness/par_ops.cpp')
PAR_ASSUME = ['loads, stores and exchanges of atomics are sequentially consistent, apart from the orders the contracts ask for',
              'fewer than 2^19 exchanges of the head happen between a read of it and the exchange that relies on it (the tag does not wrap)',
              'a node that was taken stays readable memory', 'at most 2^20 worker threads', 'the least part of a loop is not zero']
PAR_TRUST = ['pthread mutexes, std::condition_variable, the operating system\'s threads']


def pjobs(js, g):
    return [Job('par', n, parspec.mk, f, a, 1.0, replay=('flat', 'replay/par_replay.cpp', (), (g,), ('-S=', '-pthread'))) for n, f, a in js]


prop('C14', lambda tier: pjobs(parspec.JOBS, 'loop'),
     ['fu::parallel_for', 'PBC_Decrement', 'PBC_Wait', 'TaskStack_TryWork', 'TaskStack_Worker_Loop'], PAR_ASSUME, PAR_TRUST)
prop('C15', lambda tier: pjobs(parspec.STACK, 'stack'), ['lockfree::stack::push', 'lockfree::stack::try_pop'], PAR_ASSUME[:3], [])
