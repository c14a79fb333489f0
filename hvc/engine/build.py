"""compile harness -> bitcode -> ll text"""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('HVC_REPO', '/repo')
INC = ['-I' + VERIF + '/hvc', '-I' + REPO + '/src', '-I' + REPO + '/src/helics/core', '-I' + VERIF + '/shim/inc',
       '-I' + VERIF + '/shim/inc/helics_core', '-I' + REPO + '/ThirdParty']
SYM = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-fno-discard-value-names', '-w',
       '-DHVC_SYMBOLIC=1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics']


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    return p.returncode, p.stdout, p.stderr


def compile_sym(src, out, std=True, extra=()):
    """returns (ok, message)"""
    bc = out + '.bc'
    inc = list(INC)
    if std:
        inc = ['-I' + VERIF + '/hvc/std'] + inc
    rc, o, e = run(SYM + list(extra) + inc + ['-emit-llvm', '-c', src, '-o', bc])
    if rc:
        return False, e[:4000]
    return True, ''


def lower(bc, ll, roots, noinline_re=None):
    api = ','.join(roots)
    rc, o, e = run(['opt-18', '-S', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg)',
                    '-internalize-public-api-list=' + api, bc, '-o', ll])
    if rc:
        return False, e[:4000]
    return True, ''


def demangle(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))
