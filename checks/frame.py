"""P13 (read-only operations), P14 (no shared state), P18 (freestanding): effect analysis over the whole module."""
import os
import subprocess
from sa.harness import *
from sa import build
from sa.effects import Effects
from sa.engine import where

# operation -> places it may write, besides storage it obtained itself; 'arg0' = first argument's object,
# 'argd0' = storage owned by it
API = {
    'spot_init': ('arg0',), 'spot_free': ('arg0', 'argd0'), 'spot_fit': ('arg0', 'argd0'), 'spot_step': ('arg0', 'argd0'),
    'spot_quantile': (), 'spot_probability': (),
    'libspot_error': ('arg1',), 'libspot_version': ('arg0',), 'libspot_license': ('arg0',),
}
SETTERS = {'set_allocators', 'set_float_utils'}


def pname(E, f, p):
    F = E.m.functions[f]
    if p[0] in ('arg', 'argd'):
        n = F.args[p[1]].name if p[1] < len(F.args) else '?'
        return '*%s' % n if p[0] == 'arg' else 'memory reached from %s' % n
    if p[0] in ('global', 'globald'):
        return 'global variable %s' % p[1]
    return str(p)


def chain(E, f, ins):
    """a call path from f to the function holding the instruction"""
    r = E.reach(f).get(ins.fn.name)
    return ' -> '.join(r) if r else ins.fn.name


def setup(ctx, b):
    ctx.need('spot_init', 'spot_free', 'spot_fit', 'spot_step', 'spot_quantile', 'spot_probability')
    E = Effects(ctx.m)
    b.cov['functions'] |= {f.name for f in ctx.m.defined}
    b.cov['effect_rounds'] = E.rounds
    b.cov['call_sites'] = sum(1 for f in ctx.m.defined for x in f.blocks for i in x.insts if i.op == 'call')
    b.cov['store_sites'] = sum(1 for f in ctx.m.defined for x in f.blocks for i in x.insts if i.op == 'store')
    return E


def p13(ctx, b, tier):
    b.rule('writes', 'an operation writes only the places it is documented to produce (queries: nothing; batches and texts given by the caller: never)')
    E = setup(ctx, b)
    for f, allowed in sorted(API.items()):
        if not ctx.fn(f):
            b.und('writes', f, 'not found')
            continue
        S = E.sum[f]
        bad = False
        for (p, _), ins in S['writes'].items():
            if p[0] in ('heap', 'local'):
                continue
            if p[0] in ('arg', 'argd') and '%s%d' % p in allowed:
                continue
            if p[0] in ('global', 'globald'):
                continue          # P14
            if p[0] == 'ext':
                b.und('writes', where(ins), '%s writes through a pointer of unknown origin' % f)
                bad = True
                continue
            bad = True
            b.bad('writes', where(ins), '%s must not modify %s, but this store does (call path %s)' % (f, pname(E, f, p), chain(E, f, ins)))
        if not bad:
            b.ok('writes', f, 'writes %s' % (sorted({pname(E, f, p) for p, _ in S['writes']}) or 'nothing'))
            b.cov['partitions'] += 1
    b.rule('const', 'no function writes through a parameter it declares as pointing to constant data')
    for f, i, t in const_params():
        if not ctx.fn(f) or i >= len(ctx.m.functions[f].args):
            continue
        hit = [ins for (p, _), ins in E.sum[f]['writes'].items() if p == ('arg', i)]
        for ins in hit:
            b.bad('const', where(ins), '%s writes %s, declared %s (call path %s)' % (f, pname(E, f, ('arg', i)), t, chain(E, f, ins)))
        if not hit:
            b.ok('const', '%s: %s' % (f, t))


def const_params():
    """(function, parameter index, type) of every pointer-to-const parameter of a function defined in src/"""
    out = set()
    for s in build.sources():
        for d in ast(s).get('inner', []):
            if d.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])):
                for i, x in enumerate([x for x in d['inner'] if x.get('kind') == 'ParmVarDecl']):
                    t = x['type'].get('desugaredQualType', x['type']['qualType'])
                    if t.count('*') == 1 and t.split('*')[0].split()[:1] == ['const']:
                        out.add((d['name'], i, t))
    return sorted(out)


def ast(src):
    import json
    r = subprocess.run([build.tool('clang'), '-x', 'c', '-fsyntax-only', '-Xclang', '-ast-dump=json'] + build.cflags() + [src],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return json.loads(r.stdout)


def p14(ctx, b, tier):
    b.rule('no-global-write', 'no operation of the library writes a variable that outlives the call, except the two setters, which only set the hooks')
    b.rule('no-retention', 'no operation keeps a pointer to its arguments or to a shared variable in a detector or in a global')
    b.rule('hooks-only', 'the only variables that can change and that are read by detector operations are the hooks')
    E = setup(ctx, b)
    api = API
    reached = set()
    for f in SETTERS:
        reached |= set(E.reach(f)) if ctx.fn(f) else set()
    hooks = set()
    for f in SETTERS:
        if ctx.fn(f):
            for (p, _), ins in E.sum[f]['writes'].items():
                if p[0] == 'global':
                    g = ctx.m.globals.get(p[1])
                    if g is not None and g.ty.kind == 'ptr':
                        hooks.add(p[1])
                        b.ok('no-global-write', f, 'sets hook %s' % p[1])
                    else:
                        b.bad('no-global-write', where(ins), '%s writes %s, which is not a hook' % (f, p[1]))
                elif p[0] in ('arg', 'argd'):
                    b.bad('no-global-write', where(ins), '%s writes through its argument' % f)
    for f in sorted(api):
        if not ctx.fn(f):
            continue
        S = E.sum[f]
        bad = False
        for (p, _), ins in S['writes'].items():
            if p[0] in ('global', 'globald'):
                bad = True
                b.bad('no-global-write', where(ins), '%s writes %s, shared by all detectors and threads (call path %s)' % (f, pname(E, f, p), chain(E, f, ins)))
        if not bad:
            b.ok('no-global-write', f)
        bad = False
        for (p, v, _), ins in S['keeps'].items():
            if v[0] == 'global' and (v[1] not in ctx.m.globals or ctx.m.globals[v[1]].const):
                continue
            if p[0] in ('arg', 'argd') and v[0] in ('arg', 'argd') and p[1] == v[1]:
                continue          # pointers inside one object
            if p[0] == 'heap':
                b.und('no-retention', where(ins), 'a pointer is stored in fresh storage')
                continue
            bad = True
            b.bad('no-retention', where(ins), '%s stores a pointer to %s in %s, which outlives the call (call path %s)' % (
                f, 'a stack variable' if v[0] == 'local' else pname(E, f, v), pname(E, f, p), chain(E, f, ins)))
        if S['ret'] and any(p[0] == 'local' for p in S['ret']):
            bad = True
        if not bad:
            b.ok('no-retention', f)
        for p in sorted({p for p, _ in S['reads']}):
            if p[0] == 'global':
                g = ctx.m.globals.get(p[1])
                writers = [h for h in E.sum if any(q == p for q, _ in E.sum[h]['writes'])]
                if g is None or g.const or not writers or p[1] in hooks:
                    b.ok('hooks-only', f, p[1])
                elif all(h in reached for h in writers):
                    b.ok('hooks-only', f, p[1])
                # other written globals are reported at the write
    b.cov['hooks'] = sorted(hooks)
    b.cov['globals'] = {g.name: ('constant' if g.const else 'variable') for g in ctx.m.globals.values() if not g.name.startswith('.str')}


def p18(ctx, b, tier):
    b.rule('no-external', 'the linked library calls no function it does not define: everything else is reached through the hooks')
    b.rule('no-libc-header', 'every source compiles without the headers of a C library')
    b.rule('no-asm', 'no inline assembly')
    b.rule('no-startup', 'no code runs at load time')
    b.rule('api', 'every function of the public header is defined by the library')
    m = ctx.m
    b.cov['functions'] |= {f.name for f in m.defined}
    n = 0
    for f in m.defined:
        for blk in f.blocks:
            for ins in blk.insts:
                if ins.op != 'call':
                    continue
                n += 1
                c = ins.callee
                k = getattr(c, 'kind', None)
                if k == 'asm':
                    b.bad('no-asm', where(ins), 'inline assembly %s' % c.v)
                elif k == 'func':
                    t = m.functions.get(c.v)
                    if t is not None and t.decl and not c.v.startswith('llvm.'):
                        b.bad('no-external', where(ins), 'call of %s, which the library does not define' % c.v)
                    else:
                        b.ok('no-external', where(ins), c.v)
                else:
                    b.ok('no-external', where(ins), 'indirect')
    for F in m.functions.values():
        if F.decl and not F.name.startswith('llvm.'):
            used = any(F.name == getattr(i.callee, 'v', None) or any(getattr(o, 'v', None) == F.name for o in i.ops)
                       for g in m.defined for blk in g.blocks for i in blk.insts)
            b.bad('no-external', F.name, 'the library refers to %s without defining it' % F.name) if used else None
    for g in m.globals.values():
        if g.name in ('llvm.global_ctors', 'llvm.global_dtors'):
            b.bad('no-startup', g.name, 'code runs at load time')
        elif g.decl:
            b.bad('no-external', g.name, 'the library refers to the variable %s without defining it' % g.name)
    b.ok('no-startup', 'module')
    for s in build.sources():
        cmd = [build.tool('clang'), '-ffreestanding', '-nostdlibinc', '-fsyntax-only'] + build.cflags() + [s]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            b.ok('no-libc-header', os.path.basename(s))
        else:
            l = [x for x in r.stdout.splitlines() if 'error' in x]
            b.bad('no-libc-header', os.path.basename(s), 'does not compile without a C library: %s' % (l[0] if l else r.stdout[:200]))
    names = public_api()
    for x in names:
        if ctx.fn(x):
            b.ok('api', x)
        else:
            b.bad('api', x, 'declared in include/spot.h but not defined')
    b.cov['call_sites'] = n
    b.cov['partitions'] = n


def public_api():
    """functions declared in include/spot.h itself"""
    t = ast(os.path.join(build.REPO, 'include', 'spot.h'))
    out = []
    cur = None
    for d in t.get('inner', []):
        loc = d.get('loc', {})
        if 'file' in loc:
            cur = loc['file']
        elif 'spellingLoc' in loc and 'file' in loc['spellingLoc']:
            cur = loc['spellingLoc']['file']
        if d.get('kind') == 'FunctionDecl' and cur and os.path.basename(cur) == 'spot.h' and 'inner' not in [d.get('storageClass')] \
                and not any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])) and d.get('storageClass') != 'static':
            out.append(d['name'])
    return sorted(set(out))
