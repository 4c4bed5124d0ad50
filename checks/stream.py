"""P01-P05, P08: decisions and updates of the streaming API."""
from sa.harness import *


def b_fit(ctx):
    T = ctx.lay['Tail']

    def h(E, st, ins, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.off.const() is None:
            raise Undecided('fit of %r' % p)
        n = sum(1 for ev in st.events if getattr(ev, 'name', '') == 'fit')
        g = fvar("gamma" + "'" * (n + 1), nan=False)
        s = fvar("sigma" + "'" * (n + 1), nan=False)
        st.facts.f_add(s.num, True, -1)
        o = st.wobj(p.obj)
        snap = dict(o.cells)
        o.cells[p.off.c + T['gamma']] = g
        o.cells[p.off.c + T['sigma']] = s
        st.wlog = st.wlog + ((p.obj, p.off.c + T['gamma'], ins, g), (p.obj, p.off.c + T['sigma'], ins, s))
        ll = fvar('llhood')
        st.events = st.events + (Event('fit', list(a), ll, ins, info={'gamma': g, 'sigma': s, 'pre': snap}),)
        return [(st, ll)]
    return h


def b_p2(E, st, ins, a):
    r = fun('p2_quantile', a[0], a[1] if isinstance(a[1], I) else vkey(a[1]), a[2])
    st.events = st.events + (Event('p2', list(a), r, ins),)
    return [(st, r)]


def stream_engine(ctx):
    m = model_alloc(MATH)
    m['peaks_push'] = b_push(ctx)
    m['tail_fit'] = b_fit(ctx)
    m['p2_quantile'] = b_p2
    return Engine(ctx.m, models=m)


def inputs():
    x = fvar('x', nan=False)
    return [('finite', x), ('NaN', NAN), ('+inf', INF), ('-inf', NINF)]


FIELDS = ['q', 'level', 'discard_anomalies', 'low', '__up_down', 'anomaly_threshold', 'excess_threshold', 'Nt', 'n']


def same_state(b, rid, ctx, s, pre, e, w, but=()):
    """every field of the detector as in `pre`, except those in `but`"""
    S = ctx.lay['Spot']
    now = s.mem[e.spot.id].cells
    skip = {S[f] for f in but}
    for off, v in pre.items():
        if off in skip:
            continue
        name = field_name(ctx, off)
        n = now.get(off)
        if n is None:
            b.und(rid, w, '%s not tracked' % name)
        elif n == v:
            b.ok(rid, w, '%s unchanged' % name)
        else:
            b.eq(rid, s, n, v, w, name)
    ws = s.mem[e.data.id].writes
    for off, val in ws:
        if not isinstance(off, I):
            b.und(rid, w, 'container written in a loop')
            continue
        r, how = decide_eq(s.facts, val, elem_of(e.data, off)) if isinstance(val, F) else ('no', '')
        if r == 'no':
            b.bad(rid, w, 'a stored excess is overwritten; partition: %s' % part(s))
        else:
            b.add(rid, 'ok' if r == 'yes' else 'undecided', w, 'container write')


def field_name(ctx, off):
    S = ctx.lay['Spot']
    best = None
    for f, o in S.items():
        if f.endswith('#size') or f == '#size':
            continue
        if o == off and (best is None or len(f) > len(best)) and f not in ('tail', 'tail.peaks.container'):
            best = f
    return best or 'offset %d' % off


def configs():
    for low in (False, True):
        for disc in (False, True):
            for regime in ('part', 'full'):
                yield low, disc, regime


def cfg(low, disc, regime):
    return '%s tail, %s, container %s' % ('lower' if low else 'upper', 'discarding' if disc else 'keeping', regime)


def step_leaves(ctx, b, only=None):
    """(engine, state, e, x class, x, verdict kind, return value, pre cells, label) split along the specification"""
    en = ctx.en
    ctx.need('spot_step')
    for low, disc, regime in configs():
        for xn, x in inputs():
            E = stream_engine(ctx)
            st = State()
            set_hooks(E, st)
            e = mk_spot(ctx, E, st, low, disc, regime)
            pre = dict(st.mem[e.spot.id].cells)
            w = 'spot_step(%s) [%s]' % (xn, cfg(low, disc, regime))
            for s, v in E.call(st.copy(), 'spot_step', [e.p, x]):
                b.cov['partitions'] += 1
                # specification cases on this partition
                if x.sp == 'nan':
                    yield E, s, e, xn, x, 'nan', v, pre, w
                    continue
                cases = [(s, 'rest')]
                if disc:
                    cases = [(s2, 'anomaly' if t else 'rest') for s2, t in E.fork_f(s, 'ogt', fmul(e.ud, fsub(x, e.at)), fconst(0))]
                for s2, c in cases:
                    if c == 'anomaly':
                        yield E, s2, e, xn, x, 'anomaly', v, pre, w
                        continue
                    for s3, t in E.fork_f(s2, 'oge', fmul(e.ud, fsub(x, e.et)), fconst(0)):
                        yield E, s3, e, xn, x, 'excess' if t else 'normal', v, pre, w
            b.engine(E)


def p01(ctx, b, tier):
    en = ctx.en
    b.rule('verdict', 'spot_step answers: error for NaN; ANOMALY iff anomalies are discarded and the value is strictly beyond the '
           'anomaly threshold on the monitored side; else EXCESS iff it is at or beyond the excess threshold; else NORMAL')
    want = {'nan': -en['ERR_DATA_IS_NAN'], 'anomaly': en['ANOMALY'], 'excess': en['EXCESS'], 'normal': en['NORMAL']}
    for E, s, e, xn, x, c, v, pre, w in step_leaves(ctx, b):
        if not isinstance(v, I):
            b.und('verdict', w, 'returned value %r' % (v,))
            continue
        b.eq('verdict', s, v, iconst(v.w, want[c]), w, 'verdict for the case "%s"' % c)


def p02(ctx, b, tier):
    b.rule('rejected', 'a value answered by an error or by ANOMALY changes no field of the detector and no stored excess')
    b.rule('normal', 'a NORMAL value changes the observation count and nothing else')
    for E, s, e, xn, x, c, v, pre, w in step_leaves(ctx, b):
        if c in ('nan', 'anomaly'):
            same_state(b, 'rejected', ctx, s, pre, e, w + ' case ' + c)
            pushes = [ev for ev in s.events if ev.name in ('push', 'fit', 'malloc', 'free')]
            b.add('rejected', 'violation' if pushes else 'ok', w, 'a rejected value reaches the tail: %r; partition: %s' % (pushes, part(s)) if pushes else 'tail not touched')
        elif c == 'normal':
            same_state(b, 'normal', ctx, s, pre, e, w + ' case normal', but=('n',))
            b.eq('normal', s, cell(s, e.spot, ctx.lay['Spot']['n']), iadd(e.n, iconst(64, 1)), w, 'observation count')
            pushes = [ev for ev in s.events if ev.name in ('push', 'fit', 'malloc', 'free')]
            b.add('normal', 'violation' if pushes else 'ok', w, 'a NORMAL value reaches the tail: %r; partition: %s' % (pushes, part(s)) if pushes else 'tail not touched')


def p03(ctx, b, tier):
    S = ctx.lay['Spot']
    T = ctx.lay['Tail']
    b.rule('counts', 'an EXCESS increments both counts by one')
    b.rule('push', 'an EXCESS stores exactly one value: its distance to the excess threshold on the monitored side')
    b.rule('refit', 'an EXCESS refits the tail model exactly once, after the value is stored')
    b.rule('threshold', 'the anomaly threshold is then the quantile of level q under the refitted tail and the updated counts')
    b.rule('kept', 'configuration and excess threshold are unchanged')
    for E, s, e, xn, x, c, v, pre, w in step_leaves(ctx, b):
        if c != 'excess':
            continue
        w = w + ' case excess'
        n1, nt1 = iadd(e.n, iconst(64, 1)), iadd(e.Nt, iconst(64, 1))
        b.eq('counts', s, cell(s, e.spot, S['n']), n1, w, 'observation count')
        b.eq('counts', s, cell(s, e.spot, S['Nt']), nt1, w, 'excess count')
        for f in ('q', 'level', 'low', 'discard_anomalies', '__up_down', 'excess_threshold'):
            b.eq('kept', s, cell(s, e.spot, S[f]), pre[S[f]], w, f)
        ev = [x_ for x_ in s.events if x_.name in ('push', 'fit')]
        if any(x_.name == '<loop>' for x_ in s.events):
            b.und('push', w, 'events in a loop')
            continue
        ps = [x_ for x_ in ev if x_.name == 'push']
        fs = [x_ for x_ in ev if x_.name == 'fit']
        if len(ps) != 1:
            b.bad('push', w, '%d values are stored for one excess; partition: %s' % (len(ps), part(s)))
        else:
            b.eq('push', s, ps[0].args[1], fmul(e.ud, fsub(x, e.et)), w, 'stored excess')
            b.eq('push', s, ps[0].args[0], Ptr(e.spot.id, iconst(64, S['tail'] + T['peaks'])), w, 'container of the excess')
        if len(fs) != 1:
            b.bad('refit', w, 'the tail is fitted %d times for one excess; partition: %s' % (len(fs), part(s)))
        else:
            okp = ps and ev.index(fs[0]) > ev.index(ps[0])
            b.add('refit', 'ok' if okp else 'violation', w, '' if okp else 'the tail is fitted before the excess is stored; partition: %s' % part(s))
            b.eq('refit', s, fs[0].args[0], Ptr(e.spot.id, iconst(64, S['tail'])), w, 'fitted tail')
        if x.sp:
            continue
        threshold(b, 'threshold', ctx, E, s, e, n1, nt1, e.et, e.q, w)


def threshold(b, rid, ctx, E, s, e, n1, nt1, et, q, w):
    S, T = ctx.lay['Spot'], ctx.lay['Tail']
    g = cell(s, e.spot, S['tail'] + T['gamma'])
    sg = cell(s, e.spot, S['tail'] + T['sigma'])
    got = cell(s, e.spot, S['anomaly_threshold'])
    if not isinstance(g, F) or not isinstance(sg, F) or not isinstance(got, F):
        b.und(rid, w, 'tail parameters not tracked')
        return
    for s2, z in E.fork_f(s, 'oeq', g, fconst(0)):
        want = tail_q(e.ud, et, fdiv(real(nt1), real(n1)), q, g, sg, z)
        b.eq(rid, s2, got, want, w, 'anomaly threshold')


def p04(ctx, b, tier):
    S, T, en = ctx.lay['Spot'], ctx.lay['Tail'], ctx.en
    ctx.need('spot_fit', 'p2_quantile')
    b.rule('threshold', 'the excess threshold is the estimated quantile of the whole batch at `level` (upper tail) or 1-level (lower tail)')
    b.rule('nan', 'a batch whose threshold is not a number is refused with the corresponding error and stores nothing')
    b.rule('batch', 'each value of the batch is examined once, in order; exactly those strictly beyond the threshold are stored, as their distance to it, and counted')
    b.rule('counts', 'the observation count becomes the batch size and the excess count restarts from zero')
    b.rule('refit', 'the tail is fitted once, after the last value')
    b.rule('anomaly', 'the anomaly threshold is the quantile of level q; success is reported iff it is a number')
    b.rule('kept', 'the configuration is unchanged')
    for low, disc, regime in configs():
        E = stream_engine(ctx)
        st = State()
        set_hooks(E, st)
        e = mk_spot(ctx, E, st, low, disc, regime)
        size = iatom(64, fresh_atom('size', 0, 1 << 60))
        data = E.new_obj(st, 'batch', iscale(size, 8), 'param', init='lazy', elem=(8, 'double'))
        pre = dict(st.mem[e.spot.id].cells)
        w = 'spot_fit [%s]' % cfg(low, disc, regime)
        for s, v in E.call(st.copy(), 'spot_fit', [e.p, Ptr(data.id, iconst(64, 0)), size]):
            b.cov['partitions'] += 1
            for f in ('q', 'level', 'low', 'discard_anomalies', '__up_down'):
                b.eq('kept', s, cell(s, e.spot, S[f]), pre[S[f]], w, f)
            p2 = [x for x in s.events if x.name == 'p2']
            if len(p2) != 1:
                b.add('threshold', 'violation' if not p2 else 'undecided', w, '%d quantile estimations' % len(p2))
                continue
            a = p2[0].args
            b.eq('threshold', s, a[0], fsub(fconst(1), e.level) if low else e.level, w, 'order of the quantile')
            b.eq('threshold', s, a[1], Ptr(data.id, iconst(64, 0)), w, 'data of the quantile')
            b.eq('threshold', s, a[2], size, w, 'number of data of the quantile')
            et = p2[0].ret
            isn = s.facts.isnan(et.single().id)
            loops = [x for x in s.events if x.name == '<loop>']
            pushes = [x for x in s.events if x.name == 'push']
            fits = [x for x in s.events if x.name == 'fit']
            ret = v.sconst() if isinstance(v, I) else None
            for s2, nan in ([(s, isn)] if isn is not None else E.fork_f(s, 'uno', et, et)):
                if nan:
                    b.add('nan', 'ok' if ret == -en['ERR_EXCESS_THRESHOLD_IS_NAN'] else 'violation', w, 'status %s for a threshold that is not a number' % ret)
                    if pushes or any(l['events'] for x in loops for l in x.info['leaves']):
                        b.bad('nan', w, 'values are stored although the threshold is not a number')
                    continue
                fit_success(ctx, b, E, s2, e, data, size, et, loops, pushes, fits, v, w)
        b.engine(E)


def fit_success(ctx, b, E, s, e, data, size, et, loops, pushes, fits, v, w):
    S, T, en = ctx.lay['Spot'], ctx.lay['Tail'], ctx.en
    b.eq('threshold', s, cell(s, e.spot, S['excess_threshold']), et, w, 'excess threshold')
    b.eq('counts', s, cell(s, e.spot, S['n']), size, w, 'observation count')
    # the batch loop
    allloops = [l for l in s.loops.values() if any(x.name == 'push' for lf in l['leaves'] for x in lf['events'])]
    ev = list(s.events)
    nt = cell(s, e.spot, S['Nt'])
    if pushes or len([x for x in loops if x.info['id'] in [l['id'] for l in allloops]]) > 1:
        b.und('batch', w, 'values stored outside a single loop over the batch')
        return
    if not allloops:
        # no push on this partition: the batch has to be empty (or without any excess by the facts)
        t, c = size.lin()
        if s.facts.i_le(t, c):
            b.ok('batch', w, 'empty batch')
            b.eq('counts', s, nt, iconst(64, 0), w, 'excess count')
        elif not s.loops:
            b.bad('batch', w, 'no value of the batch is stored; partition: %s' % part(s))
            return
        else:
            b.bad('batch', w, 'the loop over the batch stores no value; partition: %s' % part(s))
            return
    for l in allloops:
        kid = l['k']
        if l.get('count') is None:
            b.und('batch', w, 'iteration count of the batch loop not determined')
        else:
            r, how = decide_eq(s.facts, l['count'], size)
            if r == 'yes':
                b.ok('batch', w, 'one iteration per value')
            elif r == 'no':
                b.bad('batch', w, 'the batch loop runs %r times instead of %r (%s)' % (l['count'], size, how))
            else:
                b.und('batch', w, 'iteration count %r' % l['count'])
        ntvar = ('cell', e.spot.id, S['Nt'])
        # the counter may live in memory or in a register that is written back
        for lf in l['leaves']:
            ps = [x for x in lf['events'] if x.name == 'push']
            fsx = lf['state']
            els = [g for g in gens_of_leaf(lf, data)]
            idx = sorted({g.key[1] for g in els})
            if not els and not ps:
                b.bad('batch', w, 'an iteration of the batch loop looks at no value of the batch; partition: %s' % part(fsx))
                continue
            offs = {I(k[0], k[1], dict(k[2])) for k in idx}
            fwd, bwd = I(64, 0, {kid.id: 8}), None
            if len(offs) != 1:
                b.und('batch', w, 'an iteration reads %d values' % len(offs))
                continue
            off = offs.pop()
            if off == fwd:
                b.ok('batch', w, 'iteration k examines the k-th value')
            else:
                t, c = isub(off, fwd).lin()
                b.bad('batch', w, 'iteration k examines byte offset %r of the batch instead of 8*k (order or stride)' % off)
                continue
            xk = elem_of_like(els[0])
            exc = fmul(e.ud, fsub(xk, et))
            for s2, t in E.fork_f(fsx, 'ogt', exc, fconst(0)):
                if t:
                    if len(ps) != 1:
                        b.bad('batch', w, 'a value beyond the threshold is stored %d times; partition: %s' % (len(ps), part(s2)))
                        continue
                    b.eq('batch', s2, ps[0].args[1], exc, w, 'stored excess')
                    b.eq('batch', s2, ps[0].args[0], Ptr(e.spot.id, iconst(64, S['tail'] + T['peaks'])), w, 'container')
                else:
                    if ps:
                        b.bad('batch', w, 'a value that is not beyond the threshold is stored; partition: %s' % part(s2))
                        continue
                    b.ok('batch', w, 'not stored')
                nvars = count_vars(l, lf)
                inc = [d for _, d in nvars]
                if (1 if t else 0) in inc or not nvars:
                    if not nvars:
                        b.und('counts', w, 'excess counter not identified in the loop')
                    else:
                        b.ok('counts', w, 'excess counted')
                else:
                    b.bad('counts', w, 'the excess count changes by %s on a value that is %sstored; partition: %s' % (inc, '' if t else 'not ', part(s2)))
        var = [x for x in l['vars'] if is_counter(l, x)]
        if len(var) == 1:
            b.eq('counts', s, l['vars'][var[0]]['init'], iconst(64, 0), w, 'initial excess count')
            lv = l['vars'][var[0]]['lv']
            if isinstance(lv, I):
                b.eq('counts', s, nt, I(64, lv.c, lv.t), w, 'excess count after the batch')
        elif var:
            b.und('counts', w, 'several counters')
        else:
            b.bad('counts', w, 'no excess counter in the batch loop')
    if len(fits) != 1:
        inl = any(x.name == 'fit' for l in allloops for lf in l['leaves'] for x in lf['events'])
        b.bad('refit', w, 'the tail is fitted %s for the batch' % ('inside the loop' if inl else '%d times' % len(fits)))
        return
    le = [i for i, x in enumerate(ev) if x.name == '<loop>']
    okp = not le or ev.index(fits[0]) > max(le)
    b.add('refit', 'ok' if okp else 'violation', w, '' if okp else 'the tail is fitted before the batch is stored')
    b.eq('refit', s, fits[0].args[0], Ptr(e.spot.id, iconst(64, S['tail'])), w, 'fitted tail')
    if isinstance(nt, I):
        threshold(b, 'anomaly', ctx, E, s, e, size, nt, et, e.q, w)
    at = cell(s, e.spot, S['anomaly_threshold'])
    ret = v.sconst() if isinstance(v, I) else None
    if isinstance(at, F):
        for s2, nan in E.fork_f(s, 'uno', at, at):
            want = -en['ERR_ANOMALY_THRESHOLD_IS_NAN'] if nan else 0
            b.add('anomaly', 'ok' if ret == want else 'violation', w, 'status %s, expected %s when the anomaly threshold is %s' % (ret, want, 'NaN' if nan else 'a number'))


def is_counter(l, x):
    lv = l['vars'][x]['lv']
    if not isinstance(lv, I) or x in l['steps']:
        return False
    ds = set()
    for lf in l['leaves']:
        n = lf['next'][x]
        if not isinstance(n, I):
            return False
        d = isub(n, lv)
        if d.t:
            return False
        ds.add(d.sconst())
    return len(ds) > 1


def count_vars(l, lf):
    out = []
    for x in l['vars']:
        if is_counter(l, x):
            out.append((x, isub(lf['next'][x], l['vars'][x]['lv']).sconst()))
    return out


def gens_of_leaf(lf, data):
    """elements of the batch the iteration looked at"""
    out = {}

    def walk(f):
        for g in f.gens():
            G = Gen.byid[g]
            if G.kind == 'elem' and G.key[0][0] == data.id:
                out[g] = G
    for t, c, s in lf['facts'].fl:
        for m, _ in t:
            for g, _ in m:
                G = Gen.byid[g]
                if G.kind == 'elem' and G.key[0][0] == data.id:
                    out[g] = G
    for g in lf['facts'].nan:
        G = Gen.byid[g]
        if G.kind == 'elem' and G.key[0][0] == data.id:
            out[g] = G
    for ev in lf['events']:
        for a in getattr(ev, 'args', ()):
            if isinstance(a, F) and not a.sp:
                walk(a)
    for v in lf['env'].values():
        if isinstance(v, F) and not v.sp:
            walk(v)
    return list(out.values())


def elem_of_like(G):
    return fgen(G)


def p05(ctx, b, tier):
    S, T, U, P, en = ctx.lay['Spot'], ctx.lay['Tail'], ctx.lay['Ubend'], ctx.lay['Peaks'], ctx.en
    ctx.need('spot_init')
    b.rule('level', 'level outside [0,1) (or NaN) is refused with its error code')
    b.rule('q', 'q outside (0, 1-level) (or NaN) is refused with its error code')
    b.rule('memory', 'a container that cannot be allocated is reported with its error code')
    b.rule('fields', 'after a successful call every field has its documented initial value')
    b.rule('noleak', 'a refused call holds no memory')
    lvls = [('level', fvar('level', nan=False)), ('NaN', NAN), ('+inf', INF), ('-inf', NINF)]
    for ln, lv in lvls:
        qs = [('q', fvar('q', nan=False)), ('NaN', NAN), ('+inf', INF), ('-inf', NINF)]
        for qn, q in qs:
            E = Engine(ctx.m, models=model_alloc(MATH))
            st = State()
            set_hooks(E, st)
            o = E.new_obj(st, 'spot', S['#size'], 'param', init='undef')
            low = iatom(32, fresh_atom('low', 0, (1 << 32) - 1))
            disc = iatom(32, fresh_atom('discard', 0, (1 << 32) - 1))
            cap = iatom(64, fresh_atom('max_excess', 0, (1 << 64) - 1))
            w = 'spot_init(q=%s, level=%s)' % (qn, ln)
            for s, v in E.call(st, 'spot_init', [Ptr(o.id, iconst(64, 0)), q, low, disc, lv, cap]):
                b.cov['partitions'] += 1
                ret = v.sconst() if isinstance(v, I) else None
                al = [x for x in s.events if x.name == 'malloc' and not isinstance(x.ret, Null)]
                fr = [x for x in s.events if x.name == 'free']
                for s1, ok1 in E.fork(s, ('and', ('f', 'oge', lv, fconst(0)), ('f', 'olt', lv, fconst(1)))):
                    if not ok1:
                        b.add('level', 'ok' if ret == -en['ERR_LEVEL_OUT_OF_BOUNDS'] else 'violation', w,
                              'status %s for level out of bounds; partition: %s' % (ret, part(s1)))
                        if al and not fr:
                            b.bad('noleak', w, 'memory is held by a refused call')
                        continue
                    for s2, ok2 in E.fork(s1, ('and', ('f', 'ogt', q, fconst(0)), ('f', 'olt', q, fsub(fconst(1), lv)))):
                        if not ok2:
                            b.add('q', 'ok' if ret == -en['ERR_Q_OUT_OF_BOUNDS'] else 'violation', w,
                                  'status %s for q out of bounds; partition: %s' % (ret, part(s2)))
                            if al and not fr:
                                b.bad('noleak', w, 'memory is held by a refused call')
                            continue
                        d = cell(s2, o, S['tail.peaks.container.data'])
                        if not al:
                            # refused without asking: only for no slot at all, or a size that cannot be expressed
                            t, k = cap.lin()
                            g = s2.facts.copy()
                            g.i_add_le({a: -x for a, x in t.items()}, 1 - k)
                            if not any(x.name == 'malloc' for x in s2.events) and s2.exact and not g.i_infeasible(t, k - (1 << 44)) and \
                                    not s2.facts.i_infeasible({a: -x for a, x in t.items()}, 1 - k):
                                b.bad('memory', w, 'a capacity of 1 to 2^44 is refused without asking for storage; partition: %s' % part(s2))
                            b.add('memory', 'ok' if ret == -en['ERR_MEMORY_ALLOCATION_FAILED'] else 'violation', w,
                                  'status %s although no storage was obtained; partition: %s' % (ret, part(s2)))
                            continue
                        if ret != 0:
                            b.bad('memory', w, 'status %s for valid parameters and a successful allocation; partition: %s' % (ret, part(s2)))
                            continue
                        exp = {'q': q, 'level': lv, 'n': iconst(64, 0), 'Nt': iconst(64, 0), 'anomaly_threshold': NAN, 'excess_threshold': NAN,
                               'tail.gamma': NAN, 'tail.sigma': NAN, 'tail.peaks.e': fconst(0), 'tail.peaks.e2': fconst(0),
                               'tail.peaks.min': NAN, 'tail.peaks.max': NAN,
                               'tail.peaks.container.cursor': iconst(64, 0), 'tail.peaks.container.capacity': cap,
                               'tail.peaks.container.filled': iconst(32, 0)}
                        for f, x in exp.items():
                            g = cell(s2, o, S[f])
                            if g is None:
                                b.bad('fields', w, 'field %s is left uninitialised by a successful call; partition: %s' % (f, part(s2)))
                            else:
                                b.eq('fields', s2, g, x, w, f)
                        for s3, isl in E.fork_i(s2, 'ne', low, iconst(32, 0)):
                            fl = cell(s3, o, S['low'])
                            chk_flag(b, s3, fl, isl, w, 'low')
                            g = cell(s3, o, S['__up_down'])
                            if g is None:
                                b.bad('fields', w, 'the direction is left uninitialised')
                            else:
                                b.eq('fields', s3, g, fconst(-1 if isl else 1), w, 'direction of the monitored tail')
                        for s3, isd in E.fork_i(s2, 'ne', disc, iconst(32, 0)):
                            chk_flag(b, s3, cell(s3, o, S['discard_anomalies']), isd, w, 'discard_anomalies')
            b.engine(E)


def chk_flag(b, s, v, want, w, name):
    if v is None:
        b.bad('fields', w, 'field %s is left uninitialised' % name)
        return
    if not isinstance(v, I):
        b.und('fields', w, '%s is %r' % (name, v))
        return
    c = v.const()
    t, k = v.lin()
    if c is not None:
        nz = c != 0
    elif s.facts.i_ne(t, k):
        nz = True
    elif s.facts.i_le(t, k) and s.facts.i_le({a: -x for a, x in t.items()}, -k):
        nz = False
    else:
        b.und('fields', w, name)
        return
    b.add('fields', 'ok' if nz == want else 'violation', w, '%s is %s, asked for %s' % (name, nz, want))


def p08(ctx, b, tier):
    S, T = ctx.lay['Spot'], ctx.lay['Tail']
    ctx.need('spot_quantile', 'spot_probability', 'tail_quantile', 'tail_probability')
    b.rule('quantile', 'spot_quantile is the value whose exceedance probability is q: threshold + direction * generalised Pareto quantile at q*n/Nt')
    b.rule('probability', 'spot_probability is Nt/n times the generalised Pareto survival function of the distance to the threshold')
    b.rule('inverse', 'the two extracted formulas are inverse of each other')
    b.rule('tail', 'tail_quantile and tail_probability are the generalised Pareto formulas for any ratio')
    for low, disc, regime in ((False, True, 'full'), (True, False, 'part')):
        E = stream_engine(ctx)
        st = State()
        set_hooks(E, st)
        e = mk_spot(ctx, E, st, low, disc, regime)
        st.facts.i_add_le({next(iter(e.Nt.t)): -1}, 1)
        z = fvar('z', nan=False)
        q = fvar('p', nan=False)
        st.facts.f_add(q.num, True, -1)
        s0 = fdiv(real(e.Nt), real(e.n))
        qs, ps = [], []
        w = 'spot_quantile [%s]' % cfg(low, disc, regime)
        for s, v in E.call(st.copy(), 'spot_quantile', [e.p, q]):
            b.cov['partitions'] += 1
            for s2, zero in E.fork_f(s, 'oeq', e.gamma, fconst(0)):
                b.eq('quantile', s2, v, tail_q(e.ud, e.et, s0, q, e.gamma, e.sigma, zero), w, 'quantile')
                qs.append((s2, v, zero))
        w = 'spot_probability [%s]' % cfg(low, disc, regime)
        for s, v in E.call(st.copy(), 'spot_probability', [e.p, z]):
            b.cov['partitions'] += 1
            for s2, zero in E.fork_f(s, 'oeq', e.gamma, fconst(0)):
                b.eq('probability', s2, v, tail_p(s0, fmul(e.ud, fsub(z, e.et)), e.gamma, e.sigma, zero), w, 'probability')
                ps.append((s2, v, zero))
        for sq, vq, zq in qs:
            for sp, vp, zp in ps:
                if zq != zp or vq.sp or vp.sp:
                    continue
                comp = Subst(gmap={z.single().id: vq}).F(vp)
                s3 = sq.copy()
                b.eq('inverse', s3, comp, q, w, 'probability of the quantile')
        # tail level, free ratio
        t = Ptr(e.spot.id, iconst(64, S['tail']))
        sv = fvar('s', nan=False)
        d = fvar('d', nan=False)
        st2 = st.copy()
        st2.facts.f_add(sv.num, True, -1)
        for s, v in E.call(st2.copy(), 'tail_quantile', [t, sv, q]):
            for s2, zero in E.fork_f(s, 'oeq', e.gamma, fconst(0)):
                b.eq('tail', s2, v, tail_q(fconst(1), fconst(0), sv, q, e.gamma, e.sigma, zero), 'tail_quantile', 'quantile')
        for s, v in E.call(st2.copy(), 'tail_probability', [t, sv, d]):
            for s2, zero in E.fork_f(s, 'oeq', e.gamma, fconst(0)):
                b.eq('tail', s2, v, tail_p(sv, d, e.gamma, e.sigma, zero), 'tail_probability', 'probability')
        b.engine(E)
