"""Runs the proof jobs of one property, searches for a failing input when an obligation fails, writes evidence."""
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

import build
import ir
from sym import EngineError

VERIF = build.VERIF
NPROC = max(2, os.cpu_count() or 2)


class Job:
    """one entry point of the real code from one shape of pre-state.
    fn(ctx, *args) builds the pre-state, runs the code and states the obligations; ctx = mk(module, title)"""

    def __init__(self, unit, title, mk, fn, args=(), cost=1.0, replay=None, bounded=None):
        self.unit, self.title, self.mk, self.fn, self.args = unit, title, mk, fn, args
        self.cost, self.replay, self.bounded = cost, replay, bounded


class Prop:
    def __init__(self, pid, jobs, units, replay=None, assumptions=(), trusted=(), under=(), notes=(), extra=None,
                 bounded_checks=None):
        self.pid, self.jobs, self.units, self.replay = pid, jobs, units, replay
        self.assumptions, self.trusted, self.under, self.notes = list(assumptions), list(trusted), list(under), list(notes)
        self.extra = extra
        self.bounded_checks = bounded_checks


_G = {}


def _init(units, jobs, d, budget):
    _G.update(units=units, jobs=jobs, dir=d, mods={}, budget=budget)


def _mod(name):
    m = _G['mods'].get(name)
    if m is None:
        m = _G['mods'][name] = ir.parse(open(os.path.join(_G['dir'], name + '.b.ll')).read())
    return m


def _run(arg):
    i, scale = arg
    job = _G['jobs'][i]
    t0 = time.time()
    r = dict(i=i, err=None, obs=[], paths=0, solver_s=0.0, queries=0, backends={}, executed=[], loops=[], native=False)
    cx = None
    try:
        cx = job.mk(_mod(job.unit), job.title)
        cx.eng.deadline = t0 + _G['budget'] * scale
        if scale > 1:
            cx.eng.P.timeout *= 3
            cx.eng.P.incremental = False
        job.fn(cx, *job.args)
    except EngineError as e:
        r['err'] = str(e)
    except RecursionError as e:
        r['err'] = 'recursion limit'
    except Exception:
        r['err'] = 'internal: ' + traceback.format_exc()[-1500:]
    if cx is not None:
        e = cx.eng
        r.update(obs=[(o.name, o.cat, o.status, o.info, o.model, o.where) for o in e.obs], paths=e.paths,
                 solver_s=e.P.t, queries=e.P.n, backends=dict(e.P.backend), executed=sorted(e.executed),
                 loops=[list(map(str, x)) for x in e.loopinfo])
    r['t'] = time.time() - t0
    return r


def compile_units(units, d):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda u: u.compile(d), units))


def costs():
    try:
        return json.load(open(os.path.join(VERIF, 'engine', 'costs.json')))
    except Exception:
        return {}


AFTER_FAILURE = 40


def run_jobs(units, jobs, d, budget, verbose=False, limit=1e9):
    known = costs()
    order = sorted(range(len(jobs)), key=lambda i: -known.get(jobs[i].title, jobs[i].cost))
    sys.setrecursionlimit(20000)
    res = {}
    ctx = mp.get_context('fork')
    t0 = time.time()
    state = dict(stop=t0 + limit)

    def drain(pool, todo):
        it = pool.imap_unordered(_run, todo)
        for _ in todo:
            while True:
                left = state['stop'] - time.time()
                if left <= 0:
                    return False
                try:
                    r = it.next(timeout=min(left, 5))
                    break
                except mp.TimeoutError:
                    pass
            yield r

    def failed(r):
        return any(o[2] == 'failed' for o in r['obs'])

    def stuck(r):
        # outside of the verifier's reach: a second attempt ends the same way
        return r['err'] and 'budget' not in r['err']

    with ctx.Pool(NPROC, _init, (units, jobs, d, budget)) as pool:
        for r in drain(pool, [(i, 1) for i in order]):
            res[r['i']] = r
            if failed(r):
                # enough is known: what is under way may end, then the search for a failing input gets its turn
                state['stop'] = min(state['stop'], time.time() + AFTER_FAILURE)
            elif stuck(r):
                state['stop'] = min(state['stop'], time.time() + 3 * AFTER_FAILURE)
            if verbose:
                bad = [o for o in r['obs'] if o[2] != 'ok']
                print('%-55s %5d obs %4d paths %6.1fs %s' % (jobs[r['i']].title, len(r['obs']), r['paths'], r['t'],
                                                         'BAD' if bad or r['err'] else ''), flush=True)
                if r['err']:
                    print('    ERR', r['err'])
                for b in bad[:5]:
                    print('    ', b)
        again = [i for i, r in res.items() if r['err'] and 'internal' not in r['err'] or
                 any(o[2] == 'unknown' for o in r['obs'])]
        again = [i for i in again if not failed(res[i])]
        if again and len(again) <= 24 and not any(failed(r) or stuck(r) for r in res.values()):
            for r in drain(pool, [(i, 2) for i in again]):
                old = res[r['i']]
                nb = lambda x: len([o for o in x['obs'] if o[2] != 'ok']) + (1 if x['err'] else 0)
                if nb(r) < nb(old):
                    res[r['i']] = r
        pool.terminate()
    for i in range(len(jobs)):
        if i not in res:
            res[i] = dict(i=i, err='not decided: the check ran out of time', obs=[], paths=0, solver_s=0.0, queries=0, backends={},
                          executed=[], loops=[], native=False, t=0.0, cut=True)
    return [res[i] for i in range(len(jobs))]


def run_property(P, tier, seed, verbose=False):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='fuverif-')
    out = os.path.join(VERIF, 'out')
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        return _run_property(P, tier, seed, d, out, t0, verbose)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _violation(P, out, lines, concrete):
    path = os.path.join(out, '%s.replay.txt' % P.pid)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    print('VIOLATION property=%s replay=%s%s' % (P.pid, path, '' if concrete else ' no-failing-input-found'))
    return 1


def _run_property(P, tier, seed, d, out, t0, verbose):
    jobs = P.jobs(tier)
    names = sorted({j.unit for j in jobs})
    units = [u for u in P.units if u.name in names]
    rc = 0
    try:
        compile_units(units, d)
    except build.BuildError as e:
        # the real code no longer offers the verified interface, or does not compile: nothing can be proved
        lines = ['property %s: the sources of %s do not compile with the verification harness' % (P.pid, build.REPO), str(e)]
        rc = _violation(P, out, lines, False)
        evidence(P, tier, seed, jobs, [], d, t0, rc, 'build failed', [])
        return rc
    res = run_jobs(units, jobs, d, 240 if tier == 'quick' else 1200, verbose, 560 if tier == 'quick' else 1e9)
    if os.environ.get('COSTS'):
        k = costs()
        k.update({j.title: round(r['t'], 2) for j, r in zip(jobs, res)})
        with open(os.path.join(VERIF, 'engine', 'costs.json'), 'w') as f:
            json.dump(dict(sorted(k.items())), f, indent=0)
    bad = []
    for j, r in zip(jobs, res):
        fo = [o for o in r['obs'] if o[2] != 'ok']
        if r['err'] or fo or not r['obs']:
            bad.append((j, r, fo))
    if any(b[2] for b in bad):
        bad = [b for b in bad if not b[1].get('cut')]
    extra = []
    if P.bounded_checks:
        for b in P.bounded_checks(tier, seed, d):
            extra.append(b)
    badx = [b for b in extra if b['failed']]
    status = 'held'
    if bad or badx:
        status = 'violated'
        lines = ['property %s: obligations that are not discharged on the current sources' % P.pid, '']
        for b in badx:
            lines.append('%s: %s' % (b['name'], b['failed']))
        for j, r, fo in bad[:40]:
            lines.append('job %s' % j.title)
            if r['err']:
                lines.append('  the verifier stopped: %s' % r['err'])
            for o in fo[:8]:
                lines.append('  obligation [%s] %s: %s at %s%s' % (o[1], o[0], o[2], o[5],
                             '   counterexample ' + json.dumps(o[4]) if o[4] else ''))
        concrete = any(b.get('concrete') for b in badx)
        if not concrete and P.replay:
            try:
                found, txt = P.replay([(j, r, fo) for j, r, fo in bad], d, seed, 90 if tier == 'quick' else 300)
            except Exception:
                found, txt = False, ['replay failed: ' + traceback.format_exc()]
            concrete = found
            lines += [''] + txt
        if verbose:
            print('\n'.join(lines[:80]))
        rc = _violation(P, out, lines, concrete)
    evidence(P, tier, seed, jobs, res, d, t0, rc, status, extra)
    return rc


def evidence(P, tier, seed, jobs, res, d, t0, rc, status, extra):
    obs = sum(len(r['obs']) for r in res)
    ok = sum(1 for r in res for o in r['obs'] if o[2] == 'ok')
    triv = sum(1 for r in res for o in r['obs'] if o[2] == 'ok' and o[3] == 'trivial')
    cats, backends = {}, {}
    for r in res:
        for o in r['obs']:
            cats[o[1]] = cats.get(o[1], 0) + 1
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    fns = sorted({f for r in res for f in r['executed']})
    samples = []
    for j, r in list(zip(jobs, res))[:: max(1, len(jobs) // 8)]:
        for o in r['obs'][-1:]:
            samples.append(dict(job=j.title, obligation=o[0], category=o[1], status=o[2]))
    ev = dict(
        property=P.pid, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=obs, discharged=ok,
            discharged_by_simplification=triv,
            discharged_by_solver=ok - triv,
            solver_answers_by_back_end=backends,
            obligation_categories=cats,
            evaluations=sum(r['queries'] for r in res),
            rule='one job = one entry point of the real code from one symbolic pre-state shape; every path of the job '
                 'is explored and every obligation on it is decided for all values',
            distinct_nontrivial=ok - triv,
            jobs=len(jobs), paths=sum(r['paths'] for r in res),
            loops_with_derived_invariant=sum(len(r['loops']) for r in res),
            solver_s=round(sum(r['solver_s'] for r in res), 1),
            cpu_s=round(sum(r['t'] for r in res), 1) if res else 0,
            checker_cmd='python3-vt check.py %s' % P.pid,
            functions_under_contract=P.under, real_functions_executed=len(fns),
            real_functions=[f[:100] for f in fns][:150],
            trusted_base=P.trusted + ['clang 18 front end and the sroa/early-cse/simplifycfg/always-inline passes: '
                                      'the verified text is the LLVM IR they produce from the sources of the run',
                                      'the verification engine in engine/ (memory model, path exploration)',
                                      'z3 %s, cvc5 1.1.2' % build.versions()['z3py']],
            bounded=[dict(name=b['name'], bound=b.get('bound'), evaluations=b.get('evaluations')) for b in extra],
            samples=samples, status=status,
        ),
        assumptions=P.assumptions,
        wall_s=round(time.time() - t0, 2),
    )
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev['coverage']['real_functions'] = ev['coverage']['real_functions'][:20]
        s = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, 'evidence', P.pid + '.json'), 'w') as f:
        f.write(s)
    if status == 'held':
        print('property %s: %d obligations discharged (%d by solver), %d jobs, %d paths, %.0f s' %
              (P.pid, ok, ok - triv, len(jobs), sum(r['paths'] for r in res), time.time() - t0))
