"""P09-P12: model fitting."""
import time
from sa.harness import *
from checks.stream import cfg


def fresh_state(ctx, models, regime, order=False):
    E = Engine(ctx.m, models=models)
    st = State()
    set_hooks(E, st)
    e = mk_peaks(ctx, E, st, regime)
    # at least one stored excess
    st.facts.i_add_le({a: -k for a, k in e.size.t.items()}, 1)
    e.p = Ptr(e.peaks.id, iconst(64, 0))
    e.N = real(e.size)
    return E, st, e


def p09(ctx, b, tier):
    T = ctx.lay['Tail']
    ctx.need('tail_fit')
    b.rule('candidates', 'tail_fit evaluates the moments and the Grimshaw estimator once each, on the excesses of the tail')
    b.rule('best', 'no evaluated estimator has a larger log-likelihood than the retained one (NaN never beats a number)')
    b.rule('params', 'gamma and sigma are those of the retained estimator and the returned value is its log-likelihood')
    m = model_alloc(MATH)
    m.update(estimator_models(ctx))
    for nm in ('mom_estimator', 'grimshaw_estimator'):
        ctx.need(nm)
    for regime in ('part', 'full'):
        E = Engine(ctx.m, models=m)
        st = State()
        set_hooks(E, st)
        o = E.new_obj(st, 'tail', T['#size'], 'param', init='lazy')
        e = mk_peaks(ctx, E, st, regime, o, T['peaks'])
        g0, s0 = fvar('gamma', nan=False), fvar('sigma', nan=False)
        o.cells[T['gamma']], o.cells[T['sigma']] = g0, s0
        pre = {k: v for k, v in o.cells.items()}
        w = 'tail_fit [container %s]' % regime
        for s, v in E.call(st.copy(), 'tail_fit', [Ptr(o.id, iconst(64, 0))]):
            b.cov['partitions'] += 1
            ev = [x for x in s.events if x.name == 'estimate']
            if any(x.name == '<loop>' for x in s.events):
                b.und('candidates', w, 'estimators called in a loop that is not resolved')
                continue
            kinds = [x.args[0] for x in ev]
            for k in ('moments', 'grimshaw'):
                n = kinds.count(k)
                if n == 1:
                    b.ok('candidates', w, k)
                else:
                    b.bad('candidates', w, 'the %s estimator is evaluated %d times; partition: %s' % (k, n, part(s)))
            for x in ev:
                b.eq('candidates', s, x.args[1], Ptr(o.id, iconst(64, T['peaks'])), w, 'excesses given to the %s estimator' % x.args[0])
            for k, val in pre.items():
                if k not in (T['gamma'], T['sigma']):
                    b.eq('params', s, s.mem[o.id].cells.get(k), val, w, 'container field +%d' % k)
            g, sg = cell(s, o, T['gamma']), cell(s, o, T['sigma'])
            ch = [x for x in ev if g == x.info['gamma'] and sg == x.info['sigma']]
            if not ch:
                b.bad('params', w, 'gamma=%r, sigma=%r do not come from one estimator; partition: %s' % (g, sg, part(s)))
                continue
            c = ch[0]
            b.eq('params', s, v, c.ret, w, 'returned log-likelihood')
            for x in ev:
                if x is c:
                    continue
                hit = None
                for s2, t in E.fork_f(s, 'ogt', x.ret, c.ret):
                    if t:
                        hit = s2
                for s2, cn in E.fork_f(s, 'uno', c.ret, c.ret):
                    if cn:
                        for s3, xn in E.fork_f(s2, 'uno', x.ret, x.ret):
                            if not xn:
                                hit = s3
                if hit is not None:
                    b.bad('best', w, 'the %s estimator is retained although the %s one is better; partition: %s; NaN: %s' % (
                        c.args[0], x.args[0], part(hit), [Gen.byid[i].name for i, n in hit.facts.nan.items() if n]))
                else:
                    b.ok('best', w, '%s retained' % c.args[0])
        b.engine(E)


def b_brent(E, st, ins, a):
    out = []
    n = sum(1 for x in st.events if x.name == 'brent')
    for f in (1, 0):
        s = st.copy()
        r = fvar('root%d' % n, nan=False) if f else fconst(0)
        if f:
            # a root strictly inside a bracket that excludes zero
            lo, hi = a[1], a[2]
        E.store(s, ins, a[0], iconst(32, f), 4)
        s.events = s.events + (Event('brent', list(a), r, ins, info={'found': f}),)
        out.append((s, r))
    return out


def b_ll(E, st, ins, a):
    r = fun('llhood', a[1], a[2])
    st.events = st.events + (Event('llhood', list(a), r, ins),)
    return [(st, r)]


def gv_minus1(e, r, data):
    """(1/N) sum log(1 + r y)"""
    y = elem_of(data, iscale(iatom(64, J), 8))
    return fdiv(mksum(log_of(fadd(fconst(1), fmul(r, y))), e.size), e.N)


def p10(ctx, b, tier):
    P = ctx.lay['Peaks']
    ctx.need('grimshaw_estimator', 'brent', 'log_likelihood')
    t0 = time.time()
    b.rule('search', 'roots of the Grimshaw function are searched once left of zero, in [-1/max+eps, -eps], and once right of it, in [eps, 2(mean-min)/min^2], eps=min(tolerance, 1/(2 max))')
    b.rule('function', 'the searched function is w(x) = (1/N sum 1/(1+x y)) (1 + 1/N sum log(1+x y)) - 1 over the stored excesses')
    b.rule('candidates', 'the retained (gamma, sigma) is (0, mean) or (v, v/x) with v = 1/N sum log(1+x y) for a root x that was found')
    b.rule('best', 'no candidate has a larger log-likelihood than the retained one, whose log-likelihood is returned')
    m = model_alloc(MATH)
    m['brent'] = b_brent
    m['log_likelihood'] = b_ll
    tolv = None
    g = ctx.m.globals.get('BRENT_DEFAULT_EPSILON')
    for regime in ('part', 'full'):
        E, st, e = fresh_state(ctx, m, regime)
        f = st.facts
        f.f_add(e.mn.num, True, -1)
        f.f_add(fsub(e.mn, e.mx).num, False, 1)
        og = E.new_obj(st, 'gamma', 8, 'param', init='undef')
        os_ = E.new_obj(st, 'sigma', 8, 'param', init='undef')
        w = 'grimshaw_estimator [container %s]' % regime
        mean = fdiv(e.e, e.N)
        fns = set()
        for s, v in E.call(st.copy(), 'grimshaw_estimator', [e.p, Ptr(og.id, iconst(64, 0)), Ptr(os_.id, iconst(64, 0))]):
            b.cov['partitions'] += 1
            if b.count('violation') >= 4:
                break
            if time.time() - t0 > 200:
                b.und('candidates', w, 'stopped after %d partitions' % b.cov['partitions'])
                break
            if any(x.name == '<loop>' for x in s.events):
                b.und('candidates', w, 'calls in an unresolved loop')
                continue
            br = [x for x in s.events if x.name == 'brent']
            if len(br) != 2:
                b.bad('search', w, '%d root searches instead of two' % len(br))
                continue
            tol = None
            if g is not None and g.init is not None and g.init.kind == 'fp':
                tol = fconst(g.init.v)
            eps0 = tol if tol is not None else br[0].args[5]
            c = eps0.isconst()
            b.add('search', 'undecided' if c is None else 'ok' if 0 < c <= Fr(1, 10 ** 6) else 'violation', w, 'tolerance %s' % (float(c) if c is not None else c))
            for s2, t in E.fork_f(s, 'olt', eps0, fdiv(fconst(Fr(1, 2)), e.mx)):
                eps = eps0 if t else fdiv(fconst(Fr(1, 2)), e.mx)
                left = (fsub(eps, fdiv(fconst(1), e.mx)), fneg(eps))
                right = (eps, fdiv(fmul(fconst(2), fsub(mean, e.mn)), fmul(e.mn, e.mn)))
                # which call is which: try both orders
                best = None
                for perm in ((0, 1), (1, 0)):
                    sc = sum(1 for (ix, want) in zip(perm, (left, right)) for q in (0, 1)
                             if decide_eq(s2.facts, br[ix].args[1 + q], want[q])[0] == 'yes')
                    if best is None or sc > best[0]:
                        best = (sc, perm)
                for ix, want, nm in zip(best[1], (left, right), ('left', 'right')):
                    b.eq('search', s2, br[ix].args[1], want[0], w, 'lower end of the %s bracket' % nm)
                    b.eq('search', s2, br[ix].args[2], want[1], w, 'upper end of the %s bracket' % nm)
            for x in br:
                if isinstance(x.args[3], Fn):
                    fns.add(x.args[3].name)
                else:
                    b.und('function', w, 'searched function %r' % x.args[3])
                b.eq('function', s, x.args[4], e.p, w, 'data of the searched function')
                tc = x.args[5].isconst() if isinstance(x.args[5], F) else None
                b.add('search', 'undecided' if tc is None else 'ok' if 0 < tc <= Fr(1, 10 ** 6) else 'violation', w, 'search tolerance %r' % x.args[5])
            # outcome
            G, S = cell(s, og, 0), cell(s, os_, 0)
            if not isinstance(G, F) or not isinstance(S, F):
                b.bad('candidates', w, 'gamma or sigma not assigned: %r %r; partition: %s' % (G, S, part(s)))
                continue
            if 'undef' in (G.sp, S.sp) and s.exact:
                b.bad('candidates', w, 'gamma or sigma is a value that was never computed: %r %r; partition: %s' % (G, S, part(s)))
                continue
            for x in s.events:
                if x.name == 'llhood':
                    b.eq('best', s, x.args[0], e.p, w, 'data of the log-likelihood')
            states = [(s, [])]
            for x in br:
                if x.info['found'] != 1:
                    continue
                nxt = []
                for s2, cs in states:
                    for s3, z in E.fork_f(s2, 'oeq', x.ret, fconst(0)):
                        nxt.append((s3, cs + [('root', x.ret, z)]))
                states = nxt
            for s2, cs in states:
                cands = [('zero', fconst(0), mean)]
                for _, r, z in cs:
                    if z:
                        cands.append(('root=0', fconst(0), mean))
                    else:
                        v1 = gv_minus1(e, r, e.data)
                        cands.append(('root', v1, fdiv(v1, r)))
                chosen = [c_ for c_ in cands if decide_eq(s2.facts, G, c_[1])[0] == 'yes' and decide_eq(s2.facts, S, c_[2])[0] == 'yes']
                if not chosen:
                    sure = s2.exact and not on_open(s2, G) and not on_open(s2, S) and all(decide_eq(s2.facts, G, c_[1])[0] == 'no' or decide_eq(s2.facts, S, c_[2])[0] == 'no' for c_ in cands)
                    b.add('candidates', 'violation' if sure else 'undecided', w, 'retained gamma=%s, sigma=%s is none of the %d candidates; partition: %s' % (short(G), short(S), len(cands), part(s2)))
                    continue
                b.ok('candidates', w, chosen[0][0])
                llc = fun('llhood', chosen[0][1], chosen[0][2])
                b.eq('best', s2, v, llc, w, 'returned log-likelihood')
                if not isinstance(v, F) or v.sp:
                    continue
                for s2b, isn in E.fork_f(s2, 'uno', v, v):
                    if isn:
                        if chosen[0][0] == 'root':
                            z = fun('llhood', fconst(0), mean)
                            hit = [s3 for s3, t in E.fork_f(s2b, 'uno', z, z) if not t]
                            if hit:
                                b.bad('best', w, 'a root whose log-likelihood is not a number replaces a candidate that has one; partition: %s' % part(hit[0]))
                            else:
                                b.ok('best', w, 'NaN only when the zero candidate is NaN')
                        continue
                    for c_ in cands:
                        llx = fun('llhood', c_[1], c_[2])
                        if feq(llx, v):
                            continue
                        hit = [s3 for s3, t in E.fork_f(s2b, 'ogt', llx, v) if t]
                        if hit:
                            b.bad('best', w, 'a candidate with a larger log-likelihood is discarded; partition: %s' % part(hit[0]))
                        else:
                            b.ok('best', w, 'not beaten')
        # the searched function
        for fn in sorted(fns):
            E2 = Engine(ctx.m, models=model_alloc(MATH))
            x = fvar('x', nan=False)
            y = elem_of(e.data, iscale(iatom(64, J), 8))
            one = fconst(1)
            a_ = fadd(one, fmul(x, y))
            want = fsub(fmul(fdiv(mksum(fdiv(one, a_), e.size), e.N), fadd(one, fdiv(mksum(log_of(a_), e.size), e.N))), one)
            for s, v in E2.call(st.copy(), fn, [x, e.p]):
                b.eq('function', s, v, want, '%s [container %s]' % (fn, regime), 'searched function', dom=((a_, e.size),))
            b.engine(E2)
        b.engine(E)


def p11(ctx, b, tier):
    P = ctx.lay['Peaks']
    ctx.need('mom_estimator', 'log_likelihood')
    b.rule('moments', 'the moments estimator is gamma=(1-m^2/v)/2, sigma=m(1+m^2/v)/2 from the mean m and variance v of the stored excesses, and returns their log-likelihood')
    b.rule('loglik', 'the log-likelihood of (gamma, sigma) is -N log sigma - (1+1/gamma) sum log(1 + gamma y/sigma), and -N log sigma - (sum y)/sigma for gamma = 0, over exactly the stored excesses')
    for regime in ('part', 'full'):
        E, st, e = fresh_state(ctx, model_alloc(MATH), regime)
        st.facts.f_add(e.mn.num, False, -1)
        g, s_ = fvar('gamma', nan=False), fvar('sigma', nan=False)
        st.facts.f_add(s_.num, True, -1)
        w = 'log_likelihood [container %s]' % regime
        y = elem_of(e.data, iscale(iatom(64, J), 8))
        for s, v in E.call(st.copy(), 'log_likelihood', [e.p, g, s_]):
            b.cov['partitions'] += 1
            for s2, z in E.fork_f(s, 'oeq', g, fconst(0)):
                base = fneg(fmul(e.N, log_of(s_)))
                if z:
                    want = fsub(base, fdiv(e.e, s_))
                else:
                    c = fadd(fconst(1), fdiv(fconst(1), g))
                    want = fsub(base, fmul(c, mksum(log_of(fadd(fconst(1), fmul(fdiv(g, s_), y))), e.size)))
                b.eq('loglik', s2, v, want, w, 'log-likelihood', bind=e.bind)
        b.engine(E)
        m = model_alloc(MATH)
        m['log_likelihood'] = b_ll
        E, st, e = fresh_state(ctx, m, regime)
        og = E.new_obj(st, 'gamma', 8, 'param', init='undef')
        os_ = E.new_obj(st, 'sigma', 8, 'param', init='undef')
        w = 'mom_estimator [container %s]' % regime
        for s, v in E.call(st.copy(), 'mom_estimator', [e.p, Ptr(og.id, iconst(64, 0)), Ptr(os_.id, iconst(64, 0))]):
            b.cov['partitions'] += 1
            mean = fdiv(e.e, e.N)
            var = fsub(fdiv(e.e2, e.N), fmul(mean, mean))
            R = fdiv(fmul(mean, mean), var)
            G = fmul(fconst(Fr(1, 2)), fsub(fconst(1), R))
            S = fmul(fmul(fconst(Fr(1, 2)), mean), fadd(fconst(1), R))
            gg, ss = cell(s, og, 0), cell(s, os_, 0)
            if gg is None or ss is None:
                b.bad('moments', w, 'gamma or sigma not assigned')
                continue
            b.eq('moments', s, gg, G, w, 'gamma', bind=e.bind)
            b.eq('moments', s, ss, S, w, 'sigma', bind=e.bind)
            b.eq('moments', s, v, fun('llhood', gg, ss), w, 'returned log-likelihood')
            for x in s.events:
                if x.name == 'llhood':
                    b.eq('moments', s, x.args[0], e.p, w, 'data of the log-likelihood')
        b.engine(E)
