"""Compile /repo's current working tree to LLVM IR (clang -O0 + mem2reg) and load it."""
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import ir
from interp import Program, AnalysisError

REPO = os.environ.get('SA_REPO', '/repo')
BASE = ['clang', '-std=c11', '-march=x86-64-v3', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
        '-g', '-S', '-emit-llvm', '-w', '-D_DEFAULT_SOURCE', '-DNDEBUG', '-DUSE_RPMALLOC', '-DFIPS_mode_set(x)=(0)']
SERVER_DEFS = ['-DWSS_SERVER_VERSION="v2.0.0"', '-DUSE_OPENSSL']
INC = ['include', 'src', 'extensions', 'subprotocols']


def units():
    out = {}
    src = os.path.join(REPO, 'src')
    for fn in sorted(os.listdir(src)):
        if fn.endswith('.c'):
            out.setdefault('server', []).append(os.path.join(src, fn))
    for k, d in (('deflate', 'extensions/permessage-deflate'), ('echo', 'subprotocols/echo'),
                 ('broadcast', 'subprotocols/broadcast')):
        p = os.path.join(REPO, d)
        for fn in sorted(os.listdir(p)):
            if fn.endswith('.c'):
                out.setdefault(k, []).append(os.path.join(p, fn))
    return out


def compile_one(a):
    path, out, defs, inc, arch = (tuple(a) + ("x86-64-v3",))[:5]
    cmd = [c if c != '-march=x86-64-v3' else '-march=' + arch for c in BASE if c != '-fno-discard-value-names'] + defs + ['-I' + i for i in inc] + [path, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        raise AnalysisError('clang failed on %s: %s' % (path, r.stderr[-2000:]))
    r = subprocess.run(['opt', '-passes=mem2reg', '-S', out, '-o', out + '.m'], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('opt failed on %s: %s' % (path, r.stderr[-2000:]))
    return out + '.m'


# hand-written allocator and generic third-party code: taken by contract, not analysed
SKIP = {'rpmalloc.c'}


def load(which, arch='x86-64-v3', extra=()):
    """which: set of 'server','deflate','echo','broadcast' -> {name: Program}"""
    d = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        jobs = []
        us = units()
        for k in which:
            if k not in us:
                raise AnalysisError('anchor vanished: no sources for %s' % k)
            inc = [os.path.join(REPO, i) for i in INC]
            for p in us[k]:
                if os.path.basename(p) in SKIP:
                    continue
                if k == 'server':
                    jobs.append((k, p, os.path.join(d, 's_' + os.path.basename(p)[:-2] + '.ll'), SERVER_DEFS + list(extra), inc, arch))
                else:
                    jobs.append((k, p, os.path.join(d, k + '_' + os.path.basename(p)[:-2] + '.ll'), [],
                                 inc + [os.path.dirname(p)], arch))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: compile_one(j[1:]), jobs))
        res = {}
        for j, o in zip(jobs, outs):
            res.setdefault(j[0], []).append(ir.parse_module(o, os.path.basename(j[1])[:-2]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def program(which, arch='x86-64-v3', extra=()):
    return Program(load([which], arch, extra)[which])


def programs(which):
    return {k: Program(m) for k, m in load(which).items()}
