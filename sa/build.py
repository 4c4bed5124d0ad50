"""Compile /repo's current sources to LLVM IR (no code of /repo is executed)."""
import atexit
import glob
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('LIBSPOT_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'


def tool(n):
    p = os.path.join(LLVM, n)
    return p if os.path.exists(p) else (shutil.which(n) or shutil.which(n + '-18') or n)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='libspot-sa-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def version():
    for l in open(os.path.join(REPO, 'Makefile'), encoding='utf-8', errors='replace'):
        if l.startswith('VERSION'):
            return l.split('=', 1)[1].strip()
    return 'UNDEFINED'


def cflags(extra=()):
    return ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-std=c99', '-I' + os.path.join(REPO, 'include'),
            '-DVERSION="%s"' % version(), '-fno-discard-value-names', '-ffp-contract=off', '-fno-builtin',
            '-fwrapv' if False else '-fno-strict-overflow', '-w'] + list(extra)


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))


PASSES = 'function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,loop-simplify)'


def core_ir(target=None, tag='core', passes=PASSES, extra=()):
    """link all of src/*.c into one normalised bitcode file"""
    d = os.path.join(scratch(), tag)
    os.makedirs(d, exist_ok=True)
    out = []
    procs = []
    for s in sources():
        o = os.path.join(d, os.path.basename(s) + '.bc')
        cmd = [tool('clang')] + (['--target=' + target, '-ffreestanding'] if target else []) + cflags(extra) + \
            ['-emit-llvm', '-c', s, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        out.append(o)
    for cmd, p in procs:
        t, _ = p.communicate()
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), t[-4000:]))
    l = os.path.join(d, 'linked.bc')
    run([tool('llvm-link'), '-o', l] + out)
    n = os.path.join(d, 'norm.bc')
    run([tool('opt'), '-passes=' + passes, l, '-o', n])
    return n


def core_objects_ir(passes=PASSES):
    d = os.path.join(scratch(), 'units')
    os.makedirs(d, exist_ok=True)
    res = {}
    for s in sources():
        o = os.path.join(d, os.path.basename(s) + '.bc')
        run([tool('clang')] + cflags() + ['-emit-llvm', '-c', s, '-o', o])
        res[s] = o
    return res


_OFFS = {
    'Spot': ['q', 'level', 'discard_anomalies', 'low', '__up_down', 'anomaly_threshold', 'excess_threshold', 'Nt', 'n',
             'tail', 'tail.gamma', 'tail.sigma', 'tail.peaks.e', 'tail.peaks.e2', 'tail.peaks.min', 'tail.peaks.max',
             'tail.peaks.container', 'tail.peaks.container.cursor', 'tail.peaks.container.capacity',
             'tail.peaks.container.last_erased_data', 'tail.peaks.container.filled', 'tail.peaks.container.data'],
    'Tail': ['gamma', 'sigma', 'peaks'],
    'Peaks': ['e', 'e2', 'min', 'max', 'container'],
    'Ubend': ['cursor', 'capacity', 'last_erased_data', 'filled', 'data'],
}


def layout(target=None):
    """{struct: {'#size': n, field: offset}} asked of the compiler front end"""
    d = scratch()
    src = os.path.join(d, 'layout%s.c' % (target or ''))
    lines = ['#include "spot.h"', '#include "structs.h"']
    names = []
    for s, fs in _OFFS.items():
        lines.append('unsigned long L_%d = sizeof(struct %s);' % (len(names), s))
        names.append((s, '#size'))
        for f in fs:
            lines.append('unsigned long L_%d = __builtin_offsetof(struct %s, %s);' % (len(names), s, f))
            names.append((s, f))
            lines.append('unsigned long L_%d = sizeof(((struct %s*)0)->%s);' % (len(names), s, f))
            names.append((s, f + '#size'))
    open(src, 'w').write('\n'.join(lines) + '\n')
    o = src + '.ll'
    run([tool('clang')] + (['--target=' + target, '-ffreestanding'] if target else []) + cflags() +
        ['-S', '-emit-llvm', src, '-o', o])
    res = {}
    for l in open(o):
        if l.startswith('@L_'):
            i = int(l[3:l.index(' ')])
            v = int(l.split(',')[0].split()[-1])
            s, f = names[i]
            res.setdefault(s, {})[f] = v
    return res


def enums():
    d = scratch()
    src = os.path.join(d, 'enums.c')
    ns = ['NORMAL', 'EXCESS', 'ANOMALY', 'ERR_MEMORY_ALLOCATION_FAILED', 'ERR_LEVEL_OUT_OF_BOUNDS',
          'ERR_Q_OUT_OF_BOUNDS', 'ERR_EXCESS_THRESHOLD_IS_NAN', 'ERR_ANOMALY_THRESHOLD_IS_NAN', 'ERR_DATA_IS_NAN']
    open(src, 'w').write('#include "spot.h"\n' + '\n'.join('long L_%d = %s;' % (i, n) for i, n in enumerate(ns)) + '\n')
    run([tool('clang')] + cflags() + ['-S', '-emit-llvm', src, '-o', src + '.ll'])
    res = {}
    for l in open(src + '.ll'):
        if l.startswith('@L_'):
            res[ns[int(l[3:l.index(' ')])]] = int(l.split(',')[0].split()[-1])
    return res


PYSHIM = '''#define PY_SSIZE_T_CLEAN
#include <Python.h>
extern void sa_incref(PyObject *);
extern void sa_decref(PyObject *);
#undef Py_INCREF
#undef Py_DECREF
#define Py_INCREF(o) sa_incref((PyObject *)(o))
#define Py_DECREF(o) sa_decref((PyObject *)(o))
#undef Py_CLEAR
#define Py_CLEAR(o) do { PyObject *sa_old = (PyObject *)(o); if (sa_old) { (o) = NULL; sa_decref(sa_old); } } while (0)
'''


def python_ir(passes=PASSES):
    """the extension module alone; reference counting is kept as calls"""
    src = os.path.join(REPO, 'python', 'libspotmodule.c')
    if not os.path.exists(src):
        return None
    d = os.path.join(scratch(), 'pyext')
    os.makedirs(os.path.join(d, 'python'), exist_ok=True)
    os.makedirs(os.path.join(d, 'dist'), exist_ok=True)
    shutil.copy(src, os.path.join(d, 'python', 'libspotmodule.c'))
    with open(os.path.join(d, 'dist', 'spot.h'), 'w') as f:
        f.write('#include "%s"\n' % os.path.join(REPO, 'include', 'spot.h'))
    with open(os.path.join(d, 'shim.h'), 'w') as f:
        f.write(PYSHIM)
    inc = sorted(glob.glob('/usr/include/python3*'))
    if not inc:
        raise BuildError('no Python headers')
    o = os.path.join(d, 'm.bc')
    run([tool('clang')] + [x for x in cflags() if x != '-std=c99'] +
        ['-std=gnu99', '-DPy_LIMITED_API=0x03060000', '-I' + inc[-1], '-include', os.path.join(d, 'shim.h'), '-emit-llvm', '-c',
         os.path.join(d, 'python', 'libspotmodule.c'), '-o', o])
    n = os.path.join(d, 'n.bc')
    run([tool('opt'), '-passes=' + passes, o, '-o', n])
    return n
