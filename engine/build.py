"""Compiles the real sources of /repo to the intermediate language the verifier reads, on every run."""
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FU_REPO', '/repo')
CLANG = 'clang++-18'
OPT = 'opt-18'
FLAGS = ['-std=c++17', '-DNDEBUG', '-O1', '-fno-exceptions', '-fno-rtti', '-Xclang', '-disable-llvm-passes',
         '-fno-vectorize', '-S', '-emit-llvm', '-w', '-I' + REPO + '/include', '-I' + VERIF + '/harness']
PASSES = 'always-inline,function(sroa,early-cse,simplifycfg,loop-simplify,lcssa)'


class BuildError(Exception):
    pass


class Unit:
    """one translation unit: a harness file that includes the real headers, or a real source file"""

    def __init__(self, name, src, defs=(), passes=None, flags=()):
        self.name, self.src, self.defs, self.passes, self.flags = name, src, tuple(defs), passes or PASSES, tuple(flags)

    def compile(self, d):
        raw, out = os.path.join(d, self.name + '.ll'), os.path.join(d, self.name + '.b.ll')
        src = self.src if os.path.isabs(self.src) else os.path.join(VERIF, self.src)
        cmd = [CLANG] + FLAGS + list(self.flags) + ['-D' + x for x in self.defs] + [src, '-o', raw]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
        p = subprocess.run([OPT, '-S', '-passes=' + self.passes, raw, '-o', out], capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[-3000:])
        return out


def compile_cxx(src, out, defs=(), sanitize='address', opt='-O1', flags=()):
    """a native build of a driver against the real headers (for replaying failures)"""
    src = src if os.path.isabs(src) else os.path.join(VERIF, src)
    cmd = ['g++', '-std=c++17', opt, '-g', '-DNDEBUG', '-w', '-fsanitize=' + sanitize if sanitize else '-g0',
           '-I' + REPO + '/include', '-I' + VERIF + '/harness'] + ['-D' + x for x in defs] + [src, '-o', out] + list(flags)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return out


def versions():
    v = {}
    for c in (CLANG, 'z3', 'cvc5'):
        try:
            v[c] = subprocess.run([c, '--version'], capture_output=True, text=True).stdout.strip().split('\n')[0]
        except OSError:
            v[c] = '?'
    import z3
    v['z3py'] = z3.get_version_string()
    return v
