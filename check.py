#!/usr/bin/env python3-vt
"""check.py PROPERTY [-v] [--jobs SUBSTRING] [--tier quick|thorough]   |   check.py --selftest"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))


def selftest():
    """the tools the checks need are there and the engine loads"""
    import shutil
    import z3
    import props
    for t in ('clang++', 'g++', 'opt', 'cvc5'):
        p = shutil.which(t) or shutil.which(t + '-18')
        print('%s: %s' % (t, p))
    print('z3', z3.get_version_string(), '-', len(props.PROPS), 'properties')
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--selftest':
        return selftest()
    import framework
    import props
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = props.PROPS[pid]
    if '--jobs' in a:
        sub = a[a.index('--jobs') + 1]
        all_jobs = P.jobs
        P.jobs = lambda t: [j for j in all_jobs(t) if sub in j.title]
    rc = framework.run_property(P, tier, seed, '-v' in a)
    if rc == 0:
        import findings
        for k in findings.known(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
    return rc


if __name__ == '__main__':
    sys.exit(main())
