"""P16: every access of every operation is within the object, initialised, and not after release."""
import re
from sa.harness import *
from sa.ir import Const, Inst
from .term import isdbg
from sa.engine import where
from sa import build
from . import stream, estim, brent, p2
from . import texts as tx
from .memory import init_state, take_obl

KINDS = ('null', 'valid-pointer', 'live', 'bounds', 'initialised', 'const-write', 'div-by-zero', 'vla', 'undef-branch', 'undef-store', 'callee',
         'array-index', 'double-free', 'free-base', 'shift')


def runs(ctx, tier):
    """(name, function returning engines)"""
    S, T, P, U = ctx.lay['Spot'], ctx.lay['Tail'], ctx.lay['Peaks'], ctx.lay['Ubend']

    def life():
        E = Engine(ctx.m, models=model_alloc(MATH))
        st, o, a, cap = init_state(ctx, E)
        for s, v in E.call(st, 'spot_init', a):
            if isinstance(v, I) and v.sconst() == 0 or any(getattr(x, 'name', '') == 'malloc' for x in s.events):
                for s2, _ in E.call(s.copy(), 'spot_free', [a[0]]):
                    E.call(s2, 'spot_free', [a[0]])
        yield E
    yield 'initialisation and release', life

    def cont(regime, xs):
        def go():
            for x in xs:
                E = Engine(ctx.m, models=model_alloc(MATH))
                st = State()
                set_hooks(E, st)
                o = E.new_obj(st, 'tail', T['#size'], 'param', init='lazy')
                e = mk_peaks(ctx, E, st, regime, o, T['peaks'])
                e.data.nonan = x is None
                o.cells[T['gamma']], o.cells[T['sigma']] = fvar('gamma'), fvar('sigma')
                v = fvar('x', nan=False) if x is None else x
                tp, pp = Ptr(o.id, iconst(64, 0)), Ptr(o.id, iconst(64, T['peaks']))
                for f, args in (('tail_push', [tp, v]), ('peaks_push', [pp, v]), ('peaks_mean', [pp]), ('peaks_var', [pp]), ('peaks_size', [pp])):
                    if ctx.fn(f):
                        E.call(st.copy(), f, args)
                yield E
        return go
    for regime in ('part', 'full'):
        yield 'push into a container (%s)' % regime, cont(regime, (None, NAN))

    # the very first pushes into a container just initialised (capacity 1, 2 and generic)
    def fresh():
        if not ctx.fn('tail_init') or not ctx.fn('tail_push'):
            return
        for c in (1, 2):
            E = Engine(ctx.m, models=model_alloc(MATH))
            st = State()
            set_hooks(E, st)
            o = E.new_obj(st, 'tail', T['#size'], 'param', init='undef')
            p = Ptr(o.id, iconst(64, 0))
            for s, v in E.call(st, 'tail_init', [p, iconst(64, c)]):
                if not (isinstance(v, I) and v.sconst() == 0):
                    continue
                live = [s]
                for k in range(c + 2):
                    nxt = []
                    for s1 in live:
                        nxt += [s2 for s2, _ in E.call(s1, 'tail_push', [p, fvar('x%d' % k, nan=False)])]
                    live = nxt[:12]
            yield E
    yield 'pushes into new containers of one and two slots', fresh

    def est(regime):
        def go():
            m = model_alloc(MATH)
            m['brent'] = estim.b_brent
            E, st, e = estim.fresh_state(ctx, m, regime)
            og = E.new_obj(st, 'gamma', 8, 'param', init='undef')
            os_ = E.new_obj(st, 'sigma', 8, 'param', init='undef')
            g, s = Ptr(og.id, iconst(64, 0)), Ptr(os_.id, iconst(64, 0))
            fns = set()
            for f in ('mom_estimator', 'grimshaw_estimator'):
                if not ctx.fn(f):
                    continue
                st1 = st.copy()
                for s1, v in E.call(st1, f, [e.p, g, s]):
                    for x in s1.events:
                        if getattr(x, 'name', '') == 'brent' and isinstance(x.args[3], Fn):
                            fns.add((x.args[3].name, x.args[4]))
            for f, d in sorted(fns, key=repr):
                E.call(st.copy(), f, [fvar('x', nan=False), d])
            if ctx.fn('log_likelihood'):
                E.call(st.copy(), 'log_likelihood', [e.p, fvar('g'), fvar('s')])
            yield E
        return go
    for regime in ('part', 'full'):
        yield 'estimators (%s)' % regime, est(regime)

    def fit():
        m = model_alloc(MATH)
        m.update(estimator_models(ctx))
        E = Engine(ctx.m, models=m)
        st = State()
        o = E.new_obj(st, 'tail', T['#size'], 'param', init='lazy')
        mk_peaks(ctx, E, st, 'part', o, T['peaks'])
        p = Ptr(o.id, iconst(64, 0))
        if ctx.fn('tail_fit'):
            E.call(st.copy(), 'tail_fit', [p])
        yield E
    yield 'tail_fit', fit

    def spot(low, disc, regime):
        def go():
            E = stream.stream_engine(ctx)
            st = State()
            set_hooks(E, st)
            e = mk_spot(ctx, E, st, low, disc, regime)
            size = iatom(64, fresh_atom('size', 0, 1 << 60))
            d = E.new_obj(st, 'data', iscale(size, 8), 'param', init='lazy', elem=(8, 'double'))
            E.call(st.copy(), 'spot_fit', [e.p, Ptr(d.id, iconst(64, 0)), size])
            for x in (fvar('x', nan=False), NAN, INF, NINF):
                E.call(st.copy(), 'spot_step', [e.p, x])
            E.call(st.copy(), 'spot_quantile', [e.p, fvar('p')])
            E.call(st.copy(), 'spot_probability', [e.p, fvar('z')])
            yield E
        return go
    for low, disc, regime in ((False, True, 'full'), (True, False, 'part')):
        yield 'detector operations (%s)' % stream.cfg(low, disc, regime), spot(low, disc, regime)

    def quant(nonan):
        def go():
            E = Engine(ctx.m, models={'sort5': p2.sort5_contract([])} if ctx.fn('sort5') else {}, max_states=300000)
            E.want_order = E.opaque_nl = E.div_lemma = True
            st, size, d, p = p2.entry(E, nonan)
            E.call(st, 'p2_quantile', [p, Ptr(d.id, iconst(64, 0)), size])
            yield E
        return go
    yield 'p2_quantile (numbers)', quant(True)
    yield 'p2_quantile (any content)', quant(False)

    def srt():
        if ctx.fn('sort5'):
            for nan in (False, None):
                E = Engine(ctx.m, max_states=200000)
                st = State()
                o = E.new_obj(st, 'a', 40, 'param')
                for i in range(5):
                    o.cells[8 * i] = fvar('a%d' % i, nan=nan)
                E.want_order = nan is None
                E.call(st, 'sort5', [Ptr(o.id, iconst(64, 0))])
                yield E
    yield 'sort5', srt

    def br():
        E = brent.BrentEngine(ctx.m, models={'*func': brent.m_F}, max_states=400000)
        E.opaque_nl = True
        st, fo, x1, x2, tol, args = brent.mk(ctx, E)
        E.call(st.copy(), 'brent', args)
        yield E
    yield 'brent', br

    def texts():
        vals = sorted(v for k, v in ctx.en.items() if k.startswith('ERR_'))
        jobs = [('libspot_version', None), ('libspot_license', None)] + [('libspot_error', (v, v)) for v in vals] + \
            [('libspot_error', (0, vals[0] - 1)), ('libspot_error', (vals[-1] + 1, (1 << 32) - 1))]
        for f, r in jobs:
            if ctx.fn(f):
                E = tx.engine(ctx)
                st = State()
                size, o = tx.buf(E, st)
                a = [Ptr(o.id, iconst(64, 0)), size]
                if r:
                    a = [iconst(32, r[0]) if r[0] == r[1] else iatom(32, fresh_atom('err', *r))] + a
                E.call(st, f, a)
                yield E
    yield 'texts', texts


_job = {}


def one(i):
    name, go = _job['runs'][i]
    out, err = [], ''
    fns, ns, lp = set(), 0, {}
    del Engine.ALL[:]
    try:
        for E in go():
            pass
    except Undecided as ex:
        err = 'analysis stopped: %s' % ex
    except Exception as ex:      # a defect of the analysis is not a verdict about the code
        err = 'internal error: %r' % (ex,)
    for E in Engine.ALL:         # also those whose analysis was stopped
        fns |= E.functions
        ns += E.nstates
        for f, l, k in E.loop_log:
            lp['%s:%s' % (f, l)] = k
        for k, o in E.obl.items():
            out.append((k, {'kind': o['kind'], 'status': o['status'], 'msg': o['msg'], 'facts': o['facts'], 'n': o['n'],
                            'where': where(o['inst']) if o['inst'] is not None else ''}))
    return name, out, err, (fns, ns, lp)


def parallel(ctx, tier):
    import multiprocessing as mp
    _job['runs'] = list(runs(ctx, tier))
    order = sorted(range(len(_job['runs'])), key=lambda i: 0 if _job['runs'][i][0].startswith(('brent', 'p2')) else 1)
    with mp.get_context('fork').Pool(min(8, mp.cpu_count())) as p:
        return p.map(one, order, chunksize=1)


def p16(ctx, b, tier):
    b.rule('access', 'every memory access made by an operation lies inside its object, which is live and, for reads, initialised; array indices stay inside the declared array; no division by an integer zero')
    done = {}
    seen = set()
    for name, r, err, cov in parallel(ctx, tier):
        if err:
            b.und('access', name, err)
        b.cov['functions'] |= cov[0]
        b.cov['states'] += cov[1]
        b.cov['partitions'] += cov[1]
        b.cov['loops'].update(cov[2])
        for k, o in r:
            seen.add(k[0])
            if o['kind'] not in KINDS:
                continue
            d = done.setdefault(k, {'o': o, 'runs': [], 'st': 'ok'})
            d['runs'].append(name)
            if o['status'] == 'fail' and d['st'] != 'fail' or o['status'] == 'unknown' and d['st'] == 'ok':
                d['st'], d['o'] = o['status'], o
    for k, d in sorted(done.items(), key=lambda x: x[0]):
        o = d['o']
        w = o['where'] or d['runs'][0]
        if d['st'] == 'ok':
            b.ok('access', w, '%s, in %d contexts' % (o['kind'], o['n']))
        elif d['st'] == 'fail':
            b.bad('access', w, '%s [%s]; partition: %s' % (o['msg'], d['runs'][-1], '; '.join(o['facts'] or [])))
        else:
            b.und('access', w, '%s [%s]' % (o['msg'], d['runs'][-1]))
    local_init(b)
    # which accesses of the sources were met
    miss = {}
    tot = 0
    for f in ctx.m.defined:
        for blk in f.blocks:
            for i in blk.insts:
                if i.op in ('load', 'store'):
                    tot += 1
                    if i.id not in seen:
                        miss.setdefault(f.name, []).append(where(i))
    b.cov['access_sites'] = tot
    b.cov['access_sites_met'] = tot - sum(map(len, miss.values()))
    b.cov['not_met'] = {f: len(x) for f, x in miss.items()}



def local_init(b):
    """locals read before they are set: from every way on which a local is left unset, does every continuation reach a
    decision, a call or a result that depends on it?"""
    import os
    from sa import build, ir
    b.rule('local', 'no way on which a local variable is left unset leads inevitably to a decision, call, store or result that depends on it')
    try:
        m = ir.Module(scoped_ir())
    except Exception as ex:
        b.und('local', 'build', repr(ex)[:200])
        return
    for F in m.defined:
        n = 0
        for blk in F.blocks:
            for i in blk.insts:
                if i.op == 'phi':
                    for v, p in i.incoming:
                        if isinstance(v, Const) and v.kind == 'undef':
                            n += 1
                            u = inevitable(F, p, blk)
                            if u:
                                b.bad('local', where(u), 'depends on a local variable that is not set on the way through line %s' % last_line(p))
            if any(isinstance(o, Const) and o.kind == 'undef' for i in blk.insts if i.op not in ('phi', 'store') and not isdbg(i) for o in i.ops):
                n += 1
                u = inevitable(F, None, blk)
                if u:
                    b.bad('local', where(u), 'depends on a local variable that has not been set')
        b.ok('local', F.name, '%d ways' % n)


def scoped_ir():
    """IR in which every local scalar is undefined again where its scope begins"""
    import os
    from sa import build
    d = os.path.join(build.scratch(), 'scoped')
    os.makedirs(d, exist_ok=True)
    out = []
    for src in build.sources():
        t = os.path.join(d, os.path.basename(src) + '.ll')
        build.run([build.tool('clang')] + build.cflags(['-O1', '-Xclang', '-disable-llvm-passes']) + ['-emit-llvm', '-S', src, '-o', t])
        ty, res = {}, []
        for l in open(t):
            if l.startswith('define'):
                ty = {}
            a = re.match(r'\s*(%\S+) = alloca (double|i\d+|ptr)\b', l)
            if a:
                ty[a.group(1)] = a.group(2)
            a = re.match(r'\s*call void @llvm\.lifetime\.start\.p0\(i64 \S+, ptr (%\S+)\)', l)
            if a and a.group(1) in ty:
                l = '  store %s undef, ptr %s\n' % (ty[a.group(1)], a.group(1))
            res.append(l)
        open(t, 'w').write(''.join(res))
        out.append(t)
    k = os.path.join(d, 'linked.bc')
    build.run([build.tool('llvm-link'), '-o', k] + out)
    n = os.path.join(d, 'norm.bc')
    build.run([build.tool('opt'), '-passes=function(mem2reg,loop-simplify)', k, '-o', n])
    return n


def last_line(b):
    return next((i.line for i in reversed(b.insts) if i.line), '?')


def inevitable(F, prev, blk):
    """a use of an unset value on every continuation of the edge (the first one found), else None"""
    first = []
    left = [4000]

    def go(b, prev, taint, path):
        left[0] -= 1
        if left[0] < 0 or b in path:
            return False
        t = set(taint)
        new = set()
        for i in b.insts:
            if i.op != 'phi':
                break
            v = next((v for v, p in i.incoming if p is prev), None)
            t.discard(i.id)
            if isinstance(v, Const) and v.kind == 'undef' or isinstance(v, Inst) and v.id in taint:
                new.add(i.id)
        t |= new
        for i in b.insts:
            if i.op == 'phi':
                continue
            bad = any(isinstance(o, Inst) and o.id in t or isinstance(o, Const) and o.kind == 'undef' for o in i.ops)
            if i.op == 'call' and (isdbg(i)):
                continue
            if not bad or i.op == 'store' and isinstance(i.ops[0], Const) and i.ops[0].kind == 'undef':
                t.discard(i.id)
                continue
            if i.op in ('br', 'switch', 'ret', 'store', 'call', 'load'):
                first.append(i)
                return True
            if i.op == 'select' and not (isinstance(i.ops[0], Inst) and i.ops[0].id in t):
                # only one of the two values
                if not all(isinstance(o, Inst) and o.id in t for o in i.ops[1:]):
                    t.discard(i.id)
                    continue
            t.add(i.id)
        ss = b.insts[-1].succs or []
        if not ss or not t:
            return False
        return all(go(s, b, t, path | {b}) for s in ss)
    return first[0] if go(blk, prev, set(), frozenset()) and first else None
