"""P15: storage is obtained and released through the registered hooks, in pairs."""
from sa.harness import *
from sa.effects import Effects
from sa.engine import where
from .frame import API, SETTERS, chain

MAXCAP = ((1 << 64) - 1) // 8


def take_obl(b, E, rid, kinds, pre=''):
    """obligations met at instructions of the analysed code"""
    for o in E.obl.values():
        if o['kind'] not in kinds:
            continue
        w = where(o['inst'])
        if o['status'] == 'ok':
            b.ok(rid, w, o['kind'])
        elif o['status'] == 'fail':
            b.bad(rid, w, '%s%s; partition: %s' % (pre, o['msg'], '; '.join(o['facts'] or [])))
        else:
            b.und(rid, w, '%s%s' % (pre, o['msg']))


def init_state(ctx, E, hooks=True):
    S = ctx.lay['Spot']
    st = State()
    if hooks:
        set_hooks(E, st)
    o = E.new_obj(st, 'spot', S['#size'], 'param', init='undef')
    q, lv = fvar('q', nan=False), fvar('level', nan=False)
    low = iatom(32, fresh_atom('low', 0, (1 << 32) - 1))
    disc = iatom(32, fresh_atom('discard', 0, (1 << 32) - 1))
    cap = iatom(64, fresh_atom('max_excess', 0, (1 << 64) - 1))
    return st, o, [Ptr(o.id, iconst(64, 0)), q, low, disc, lv, cap], cap


def blocks(s):
    """(blocks obtained, blocks released) along the path"""
    got = [x for x in s.events if getattr(x, 'name', '') == 'malloc' and isinstance(x.ret, Ptr)]
    rel = [x for x in s.events if getattr(x, 'name', '') == 'free' and isinstance(x.args[0], Ptr)]
    return got, rel


def p15(ctx, b, tier):
    S = ctx.lay['Spot']
    ctx.need('spot_init', 'spot_free', 'set_allocators')
    b.rule('block', 'a successful initialisation obtains exactly one block, large enough for the requested number of values (the byte count does not wrap)')
    b.rule('refused', 'a refused initialisation holds no storage')
    b.rule('release', 'freeing a detector releases its block exactly once, through the registered function')
    b.rule('twice', 'freeing a detector again, or one whose storage could not be obtained, releases nothing')
    b.rule('valid', 'only blocks obtained from the hook are released, and nothing is called through or read after release')
    b.rule('no-allocator', 'without registered allocators initialisation is refused and nothing is called through a null pointer')
    b.rule('only', 'no other operation obtains or releases storage')
    kinds = ('callee', 'double-free', 'free-base', 'live', 'null', 'valid-pointer', 'undef-branch')

    E = Engine(ctx.m, models=model_alloc(MATH))
    st, o, args, cap = init_state(ctx, E)
    doff = S['tail.peaks.container.data']
    for s, v in E.call(st, 'spot_init', args):
        b.cov['partitions'] += 1
        ret = v.sconst() if isinstance(v, I) else None
        got, rel = blocks(s)
        w = 'spot_init'
        held = [x for x in got if not any(y.args[0] == x.ret for y in rel)]
        if ret is None:
            b.und('block', w, 'status not constant')
            continue
        if ret != 0:
            if held:
                b.bad('refused', where(held[0].inst), 'status %d is returned while a block obtained here is still held; partition: %s' % (ret, part(s)))
            else:
                b.ok('refused', w, 'status %d' % ret)
            tried = any(getattr(x, 'name', '') == 'malloc' for x in s.events)
            if tried:        # storage could not be obtained: the caller may still free the detector
                free_again(ctx, b, E, s, args[0], 'after a refused allocation')
            continue
        if len(held) != 1 or len(got) != 1:
            b.bad('block', w, 'a successful call obtains %d blocks and holds %d; partition: %s' % (len(got), len(held), part(s)))
            continue
        sz = got[0].args[0]
        wi = where(got[0].inst)
        t, c = cap.lin()
        if not s.facts.i_le(t, c - MAXCAP):
            hit = next((x for x in sample(s.facts, (cap,), n=8)), None)
            f = s.facts.copy()
            f.i_add_le({a: -k for a, k in t.items()}, MAXCAP + 1 - c)
            hit = sample(f, (cap,), n=2) if not s.facts.i_infeasible({a: -k for a, k in t.items()}, MAXCAP + 1 - c) else []
            if hit and s.exact:
                b.bad('block', wi, 'the byte count wraps around for max_excess > %d; partition: %s' % (MAXCAP, part(s)))
            else:
                b.und('block', wi, 'wrap-around of the byte count')
        else:
            b.ok('block', wi, 'no wrap-around')
        need = isub(iscale(cap, 8), sz)       # must be <= 0
        nt, nc = need.lin()
        nc = nc - (1 << 64) if nc >= 1 << 63 else nc
        if need.const() == 0 or s.facts.i_le(nt, nc):
            b.ok('block', wi, 'size %r' % sz)
        else:
            r, how = decide_eq(s.facts, sz, iscale(cap, 8))
            bad = [x for x in sample(s.facts, (sz, cap), n=8) if x.I(sz) < 8 * x.I(cap)]
            if bad and s.exact:
                b.bad('block', wi, 'a block of %r bytes is requested for max_excess values, e.g. %s; partition: %s' % (sz, show_point(bad[0]), part(s)))
            else:
                b.und('block', wi, 'size %r' % sz)
        data = cell(s, o, doff)
        if data == got[0].ret:
            b.ok('block', wi, 'the block is the storage of the container')
        else:
            b.bad('block', wi, 'the container refers to %r instead of the block obtained' % (data,))
        # release
        n0 = len(s.events)
        for s2, _ in E.call(s.copy(), 'spot_free', [args[0]]):
            b.cov['partitions'] += 1
            ev = [x for x in s2.events[n0:] if getattr(x, 'name', '') == 'free' and not isinstance(x.args[0], Null)]
            if len(ev) == 1 and ev[0].args[0] == got[0].ret:
                b.ok('release', where(ev[0].inst))
            elif len(ev) > 1:
                b.bad('release', where(ev[1].inst), 'the storage is released %d times by one call of spot_free' % len(ev))
            elif not ev:
                b.bad('release', 'spot_free', 'the storage of the detector is not released; partition: %s' % part(s2))
            else:
                b.bad('release', where(ev[0].inst), '%r is released instead of the block obtained' % (ev[0].args[0],))
            if any(getattr(x, 'name', '') == 'malloc' for x in s2.events[n0:]):
                b.bad('release', 'spot_free', 'storage is obtained while freeing')
            free_again(ctx, b, E, s2, args[0], 'after spot_free')
            # the detector can be initialised again
            for s3, v3 in E.call(s2.copy(), 'spot_init', args):
                g3, r3 = blocks(s3)
                if isinstance(v3, I) and v3.sconst() == 0:
                    d3 = cell(s3, o, doff)
                    if len(g3) == 2 and d3 == g3[1].ret:
                        b.ok('block', 'spot_init', 'again after spot_free')
                    else:
                        b.bad('block', 'spot_init', 'initialising a freed detector again does not obtain new storage')
    take_obl(b, E, 'valid', kinds)
    b.engine(E)

    # nothing registered: the hooks are null pointers
    for how in ('never', 'null'):
        E = Engine(ctx.m, models=model_alloc(MATH))
        st, o, args, cap = init_state(ctx, E, hooks=False)
        if how == 'null':
            set_hooks(E, st, NULL, NULL)
        for s, v in E.call(st, 'spot_init', args):
            b.cov['partitions'] += 1
            ret = v.sconst() if isinstance(v, I) else None
            if ret == 0:
                b.bad('no-allocator', 'spot_init', 'initialisation succeeds although no allocator is registered; partition: %s' % part(s))
            else:
                b.ok('no-allocator', 'spot_init')
        E2 = Engine(ctx.m, models=model_alloc(MATH))
        st2, o2, args2, _ = init_state(ctx, E2, hooks=True)
        for s, v in E2.call(st2, 'spot_init', args2):
            if isinstance(v, I) and v.sconst() == 0:
                set_hooks(E2, s, NULL, NULL)
                E2.call(s, 'spot_free', [args2[0]])
        for x in (E, E2):
            take_obl(b, x, 'no-allocator', ('callee',))
            b.engine(x)

    X = Effects(ctx.m)
    hooks = {p[1] for (p, _) in X.sum['set_allocators']['writes'] if p[0] == 'global'}
    b.cov['allocator_hooks'] = sorted(hooks)
    for f in sorted(set(API) - {'spot_init', 'spot_free'} | SETTERS):
        if not ctx.fn(f):
            continue
        hit = False
        for (p, _), ins in X.sum[f]['ext'].items():
            if isinstance(p, tuple) and p[0] in ('globald', 'global') and p[1] in hooks:
                hit = True
                b.bad('only', where(ins), '%s calls the allocator hook %s (call path %s)' % (f, p[1], chain(X, f, ins)))
        if not hit:
            b.ok('only', f)
    for (p, _), ins in X.sum['spot_free']['ext'].items():
        if isinstance(p, tuple) and p[0] == 'decl':
            b.bad('only', where(ins), 'storage is handled by %s instead of the hooks' % (p[1],))


def free_again(ctx, b, E, s, p, what):
    n0 = len(s.events)
    for s2, _ in E.call(s.copy(), 'spot_free', [p]):
        ev = [x for x in s2.events[n0:] if getattr(x, 'name', '') == 'free' and not isinstance(x.args[0], Null)]
        if ev:
            b.bad('twice', where(ev[0].inst), 'spot_free %s releases %r; partition: %s' % (what, ev[0].args[0], part(s2)))
        else:
            b.ok('twice', 'spot_free', what)


def p29(ctx, b, tier):
    """a freed detector is inert"""
    from . import stream
    S, T, U, P, en = ctx.lay['Spot'], ctx.lay['Tail'], ctx.lay['Ubend'], ctx.lay['Peaks'], ctx.en
    ctx.need('spot_free', 'spot_step', 'spot_fit', 'spot_quantile', 'spot_probability')
    b.rule('fields', 'after spot_free parameters, thresholds, tail parameters and statistics are not numbers, counters are zero and no storage is referred to')
    b.rule('size', 'a freed container has size zero')
    b.rule('step', 'a value fed to a freed detector is never stored nor answered excess or anomaly')
    b.rule('fit', 'fitting a freed detector stores nothing and reports an error')
    b.rule('queries', 'quantiles and probabilities of a freed detector are not numbers')
    b.rule('storage', 'no operation on a freed detector touches the released storage')
    for low, disc, regime in stream.configs():
        E = stream.stream_engine(ctx)
        st = State()
        set_hooks(E, st)
        e = mk_spot(ctx, E, st, low, disc, regime)
        w0 = '[%s]' % stream.cfg(low, disc, regime)
        for s, _ in E.call(st, 'spot_free', [e.p]):
            b.cov['partitions'] += 1
            for f in ('q', 'level', 'anomaly_threshold', 'excess_threshold', 'tail.gamma', 'tail.sigma', 'tail.peaks.e', 'tail.peaks.e2', 'tail.peaks.min', 'tail.peaks.max'):
                b.eq('fields', s, cell(s, e.spot, S[f]), NAN, 'spot_free ' + w0, f)
            for f in ('n', 'Nt'):
                b.eq('fields', s, cell(s, e.spot, S[f]), iconst(64, 0), 'spot_free ' + w0, f)
            d = cell(s, e.spot, S['tail.peaks.container.data'])
            if isinstance(d, Null):
                b.ok('fields', 'spot_free ' + w0, 'no storage')
            elif isinstance(d, Ptr):
                b.bad('fields', 'spot_free ' + w0, 'the detector still refers to the released storage')
            else:
                b.und('fields', 'spot_free ' + w0, 'data is %r' % (d,))
            c = Ptr(e.spot.id, iconst(64, S['tail.peaks.container.cursor'] - U['cursor']))
            if ctx.fn('ubend_size'):
                for s1, v in E.call(s.copy(), 'ubend_size', [c]):
                    b.eq('size', s1, v, iconst(64, 0), 'ubend_size after spot_free ' + w0, 'size')
            n0 = len(s.events)
            for xn, x in stream.inputs():
                for s1, v in E.call(s.copy(), 'spot_step', [e.p, x]):
                    b.cov['partitions'] += 1
                    w = 'spot_step(%s) after spot_free %s' % (xn, w0)
                    r = v.sconst() if isinstance(v, I) else None
                    push = [x for x in s1.events[n0:] if getattr(x, 'name', '') in ('push', 'fit')]
                    if push and s1.exact:
                        b.bad('step', w, 'the value is %s; partition: %s' % ('stored' if push[0].name == 'push' else 'followed by a fit', part(s1)))
                    elif r is None:
                        b.und('step', w, 'status %r' % (v,))
                    elif r in (en['EXCESS'], en['ANOMALY']):
                        b.bad('step', w, 'answer %d; partition: %s' % (r, part(s1)))
                    else:
                        b.ok('step', w)
            size = iatom(64, fresh_atom('size', 0, 1 << 60))
            s2 = s.copy()
            d = E.new_obj(s2, 'data', iscale(size, 8), 'param', init='lazy', elem=(8, 'double'))
            for s1, v in E.call(s2, 'spot_fit', [e.p, Ptr(d.id, iconst(64, 0)), size]):
                b.cov['partitions'] += 1
                w = 'spot_fit after spot_free ' + w0
                r = v.sconst() if isinstance(v, I) else None
                inl = [lf for x in s1.events[n0:] if getattr(x, 'name', '') == '<loop>' for lf in x.info['leaves']
                       if any(y.name == 'push' for y in lf['events'])]
                if (any(getattr(x, 'name', '') == 'push' for x in s1.events[n0:]) or any(lf['state'].exact for lf in inl)) and s1.exact:
                    b.bad('fit', w, 'a value is stored; partition: %s' % part(s1))
                elif r is None:
                    b.und('fit', w, 'status %r' % (v,))
                elif r >= 0:
                    b.bad('fit', w, 'status %d; partition: %s' % (r, part(s1)))
                else:
                    b.ok('fit', w)
            for f, x in (('spot_quantile', fvar('p', nan=False)), ('spot_probability', fvar('z', nan=False))):
                for s1, v in E.call(s.copy(), f, [e.p, x]):
                    b.eq('queries', s1, v, NAN, '%s after spot_free %s' % (f, w0), 'result')
        take_obl(b, E, 'storage', ('live', 'null', 'valid-pointer'))
        b.engine(E)
