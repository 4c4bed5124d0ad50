"""P06 (container is a FIFO of bounded size) and P07 (statistics agree with the content)."""
from sa.harness import *


def filled_is(b, rid, st, v, want, w):
    if isinstance(v, I) and v.const() is not None:
        if (v.const() != 0) == want:
            b.ok(rid, w, 'filled flag')
        else:
            b.bad(rid, w, 'the container reports %sfilled; partition: %s' % ('' if v.const() else 'not ', part(st)))
    elif isinstance(v, I):
        t, c = v.lin()
        nz = st.facts.i_ne(t, c)
        b.add(rid, 'ok' if nz and want else 'undecided', w, 'filled flag %r' % v)
    else:
        b.und(rid, w, 'filled flag %r' % (v,))


def mk_ubend(ctx, E, st, regime):
    e = mk_container(ctx, E, st, 'full' if regime == 'full' else 'part')
    if regime == 'empty':
        st.facts.i_add_le({next(iter(e.cur.t)): 1}, 0)
    elif regime == 'part':
        st.facts.i_add_le({next(iter(e.cur.t)): -1}, 1)
    o = E.new_obj(st, 'ubend', ctx.lay['Ubend']['#size'], 'param', init='lazy')
    fill_container(ctx, o, 0, e)
    e.ub = o
    return e


def read_slot(E, st, data, off):
    """value at byte offset off of the array, None when not determined"""
    o = st.mem[data.id]
    from sa.engine import NeedSplit
    try:
        class T:
            kind, size, bits = 'double', 8, 64
        return E.load_elem(st, o, off, T)
    except NeedSplit:
        return None


def content_after(b, rid, E, st, e, x, w, written=True):
    """only the slot at the cursor changed, and it holds x"""
    o = st.mem[e.data.id]
    slot = iscale(e.cur, 8)
    v = read_slot(E, st, e.data, slot)
    if v is None:
        b.und(rid, w, 'content of the slot at the cursor')
    else:
        b.eq(rid, st, v, x, w, 'value stored at the insertion slot')
    for off, val in o.writes:
        if not isinstance(off, I):
            b.und(rid, w, 'array written in a loop')
            continue
        d = isub(off, slot)
        t, c = d.lin()
        if not t and c == 0:
            continue
        if t and st.facts.i_le(t, c) and st.facts.i_le({a: -k for a, k in t.items()}, -c):
            continue
        old = elem_of(e.data, off)
        r, how = decide_eq(st.facts, val, old)
        if r == 'yes':
            b.ok(rid, w, 'slot %r rewritten with its own value' % off)
        elif r == 'no' and st.exact and not on_open(st, off) and not on_open(st, val):
            b.bad(rid, w, 'slot at offset %r is overwritten although only the slot at the cursor may change; partition: %s' % (off, part(st)))
        else:
            b.und(rid, w, 'write at %r' % off)


def next_cursor(E, st, e):
    """[(state, expected cursor, expected filled)]"""
    out = []
    for s, t in E.fork_i(st, 'eq', e.cur, isub(e.cap, iconst(64, 1))):
        out.append((s, iconst(64, 0) if t else iadd(e.cur, iconst(64, 1)), True if t else e.full))
    return out


def p06(ctx, b, tier):
    U = ctx.lay['Ubend']
    ctx.need('ubend_push', 'ubend_size', 'ubend_init')
    b.rule('push', 'ubend_push stores the value in the slot of the oldest element (or the next free one) and in no other')
    b.rule('erased', 'ubend_push returns the value that leaves the container, NaN when none does')
    b.rule('cursor', 'the cursor advances by one and wraps to zero at capacity; the container becomes (and stays) filled then')
    b.rule('size', 'ubend_size is the number of pushes, at most the capacity')
    b.rule('init', 'ubend_init yields an empty container with storage for capacity values, or reports a failure')
    seen_last = {}
    for regime in ('empty', 'part', 'full'):
        todo = [None]
        done = set()
        while todo:
            last = todo.pop()
            E = Engine(ctx.m, models=model_alloc(MATH))
            st = State()
            set_hooks(E, st)
            e = mk_ubend(ctx, E, st, regime)
            if last is not None:
                st.wobj(e.ub.id).cells[U['last_erased_data']] = last
            x = fvar('x', nan=False)
            w0 = 'ubend_push [%s]' % regime
            # size before
            for s, v in E.call(st.copy(), 'ubend_size', [Ptr(e.ub.id, iconst(64, 0))]):
                b.eq('size', s, v, e.size, 'ubend_size [%s]' % regime, 'size')
            for x, xw in ((x, ''), (NAN, ' NaN'), (INF, ' +inf')):
              w0 = 'ubend_push%s [%s]' % (xw, regime)
              for s, v in E.call(st.copy(), 'ubend_push', [Ptr(e.ub.id, iconst(64, 0)), x]):
                  b.cov['partitions'] += 1
                  want = elem_of(e.data, iscale(e.cur, 8)) if regime == 'full' else NAN
                  b.eq('erased', s, v, want, w0, 'returned value')
                  content_after(b, 'push', E, s, e, x, w0)
                  for s2, cur, full in next_cursor(E, s, e):
                      b.eq('cursor', s2, cell(s2, e.ub, U['cursor']), cur, w0, 'cursor')
                      filled_is(b, 'cursor', s2, cell(s2, e.ub, U['filled']), full, w0)
                      b.eq('cursor', s2, cell(s2, e.ub, U['capacity']), e.cap, w0, 'capacity')
                      b.eq('cursor', s2, cell(s2, e.ub, U['data']), Ptr(e.data.id, iconst(64, 0)), w0, 'storage pointer')
                      for s3, sz in E.call(s2.copy(), 'ubend_size', [Ptr(e.ub.id, iconst(64, 0))]):
                          b.eq('size', s3, sz, e.cap if full else iadd(e.cur, iconst(64, 1)), w0, 'size after the push')
                      # what the auxiliary field holds while the container is not filled
                      if not full:
                          l = cell(s2, e.ub, U['last_erased_data'])
                          if isinstance(l, F) and l.sp != 'nan' and l.key() not in done and len(done) < 4:
                              done.add(l.key())
                              todo.append(l)
            b.engine(E)
    E = Engine(ctx.m, models=model_alloc(MATH))
    st = State()
    set_hooks(E, st)
    o = E.new_obj(st, 'ubend', U['#size'], 'param', init='undef')
    cap = iatom(64, fresh_atom('capacity', 0, (1 << 64) - 1))
    for s, v in E.call(st.copy(), 'ubend_init', [Ptr(o.id, iconst(64, 0)), cap]):
        b.cov['partitions'] += 1
        w = 'ubend_init'
        if not isinstance(v, I) or v.const() is None:
            b.und('init', w, 'status %r' % v)
            continue
        d = cell(s, o, U['data'])
        if v.sconst() < 0:
            b.ok('init', w, 'failure reported')
            continue
        if not isinstance(d, Ptr):
            b.bad('init', w, 'success is returned but the storage is %r; partition: %s' % (d, part(s)))
            continue
        sz = s.mem[d.obj].size
        for s2, t in E.fork_i(s, 'eq', cap, iconst(64, 0)):
            if t:
                b.bad('init', w, 'an empty container (capacity 0) is accepted: the first push writes outside its storage')
        t, c = isub(sz, iscale(cap, 8)).lin()
        wraps = not s.facts.i_le({k: 8 * v for k, v in cap.t.items()}, -((1 << 64) - 1))
        if wraps:
            b.bad('init', w, 'success for a capacity whose byte size wraps around; partition: %s' % part(s))
        b.eq('init', s, sz, iscale(cap, 8), w, 'size of the storage in bytes')
        b.eq('init', s, cell(s, o, U['cursor']), iconst(64, 0), w, 'cursor')
        filled_is(b, 'init', s, cell(s, o, U['filled']), False, w)
        b.eq('init', s, cell(s, o, U['capacity']), cap, w, 'capacity')
        # first push after this very initialisation
        x = fvar('x', nan=False)
        for s2, r in E.call(s.copy(), 'ubend_push', [Ptr(o.id, iconst(64, 0)), x]):
            b.eq('erased', s2, r, NAN, 'first ubend_push after ubend_init', 'returned value')
    mem_obligations(b, E, 'init')
    b.engine(E)


def mem_obligations(b, E, rid):
    pass


def stat_eq(b, rid, st, got, options, want, e, w, what):
    """got equals one of the proven options, else decide against the defining expression"""
    if got is None:
        b.und(rid, w, what + ' not tracked')
        return
    if isinstance(got, F) and got.sp != 'undef':
        for o in options:
            if feq(got, o):
                b.ok(rid, w, what + ': lemma')
                return
    b.eq(rid, st, got, want, w, what, bind=e.bind)


def strict(b, E, rid, s, got, x, ext, out, sg, w):
    """an extreme is one of the stored values: a stored value beyond it, by however little, is a violation"""
    if not isinstance(got, F) or got.sp or not s.exact:
        return False
    for stored in [x] + ([ext] if out is None else []):
        if feq(got, stored) or not (feq(got, x) or feq(got, ext)):
            continue
        for t, yes in E.fork_f(s.copy(), 'olt' if sg == -1 else 'ogt', got, stored):
            if not yes:
                continue
            for v in sample(t.facts, (got, stored), n=1, tries=60):
                try:
                    g, y = v.F(got), v.F(stored)
                except (Bad, OverflowError, ZeroDivisionError):
                    continue
                if (g < y) if sg == -1 else (g > y):
                    b.bad(rid, w, 'the %s is %s = %.17g although the value %.17g is stored; partition: %s' % ('maximum' if sg == -1 else 'minimum', short(got), g, y, part(t)))
                    return True
    return False


def history(ctx, b, cap, pushes, limit=400):
    """the statistics after each of the first pushes into a container of a small capacity, exactly"""
    P, U = ctx.lay['Peaks'], ctx.lay['Ubend']
    E = Engine(ctx.m, models=model_alloc(MATH), max_states=60000)
    st = State()
    set_hooks(E, st)
    o = E.new_obj(st, 'peaks', P['#size'], 'param', init='undef')
    p = Ptr(o.id, iconst(64, 0))
    try:
        live = [s for s, v in E.call(st.copy(), 'peaks_init', [p, iconst(64, cap)]) if isinstance(v, I) and v.const() is not None and v.sconst() >= 0]
        xs = []
        for k in range(pushes):
            xs.append(fvar('x%d' % k, nan=False))
            w = 'peaks_push number %d, capacity %d' % (k + 1, cap)
            nxt = []
            for s in live:
                nxt += [t for t, _ in E.call(s.copy(), 'peaks_push', [p, xs[-1]])]
            live = []
            for s in nxt:
                b.cov['partitions'] += 1
                if not s.exact:
                    continue
                kept = xs[-cap:]
                got = [cell(s, o, P[f]) for f in ('e', 'e2', 'min', 'max')]
                if not all(isinstance(g, F) and g.sp != 'undef' for g in got):
                    continue
                pts = sample(s.facts, tuple(xs), n=2, tries=40)
                bad = None
                for v in pts:
                    try:
                        vs = [v.F(x) for x in kept]
                        want = (sum(vs), sum(x * x for x in vs), min(vs), max(vs))
                        for f, g, y in zip(('sum', 'squares', 'min', 'max'), got, want):
                            z = NANV if g.sp == 'nan' else v.F(g)
                            if not abs(z - y) <= 1e-6 * (1 + abs(y)):
                                bad = (f, short(g), z, y, v)
                    except (Bad, OverflowError, ZeroDivisionError):
                        continue
                if bad:
                    f, g, z, y, v = bad
                    b.bad(f, w, '%s is %s = %.6g, of the stored values it is %.6g, after pushing %s' % (f, g, z, y, show_point(v)))
                    return
                if pts:
                    b.ok('min', w, 'history')
                    live.append(s)
            if len(live) > limit:
                live = live[::len(live) // limit + 1]
    except Undecided as ex:
        b.notes.append('history: %s' % ex)
    b.engine(E)


NANV = float('nan')


def p07(ctx, b, tier):
    P, U = ctx.lay['Peaks'], ctx.lay['Ubend']
    ctx.need('peaks_push', 'peaks_mean', 'peaks_var', 'peaks_size', 'peaks_init')
    C = P['container']
    b.rule('sum', 'after a push the running sum is the sum of the values now stored')
    b.rule('squares', 'after a push the running sum of squares is that of the values now stored')
    b.rule('min', 'after a push the minimum is the smallest value now stored')
    b.rule('max', 'after a push the maximum is the largest value now stored')
    b.rule('mean', 'peaks_mean is the mean and peaks_var the population variance of the stored values')
    b.rule('empty', 'a new container has no value, zero sums, and no minimum or maximum')
    for regime in ('empty', 'part', 'full'):
        E = Engine(ctx.m, models=model_alloc(MATH))
        st = State()
        set_hooks(E, st)
        e = mk_peaks(ctx, E, st, 'full' if regime == 'full' else 'part')
        o = st.wobj(e.peaks.id)
        if regime == 'empty':
            st.facts.i_add_le({next(iter(e.cur.t)): 1}, 0)
            o.cells[P['e']] = o.cells[P['e2']] = fconst(0)
            o.cells[P['min']] = o.cells[P['max']] = NAN
            e.e = e.e2 = fconst(0)
            e.bind = []
            st.facts.fl = ()
        elif regime == 'part':
            st.facts.i_add_le({next(iter(e.cur.t)): -1}, 1)
        p = Ptr(e.peaks.id, iconst(64, 0))
        x = fvar('x', nan=False)
        w = 'peaks_push [%s]' % regime
        if regime != 'empty':
            for s, v in E.call(st.copy(), 'peaks_mean', [p]):
                b.eq('mean', s, v, fdiv(e.e, real(e.size)), 'peaks_mean [%s]' % regime, 'mean')
            for s, v in E.call(st.copy(), 'peaks_var', [p]):
                m = fdiv(e.e, real(e.size))
                b.eq('mean', s, v, fsub(fdiv(e.e2, real(e.size)), fmul(m, m)), 'peaks_var [%s]' % regime, 'variance')
        old = elem_of(e.data, iscale(e.cur, 8))
        wr = ((iscale(e.cur, 8), x),)
        for s, _ in E.call(st.copy(), 'peaks_push', [p, x]):
            b.cov['partitions'] += 1
            c = s.mem[e.peaks.id].cells
            ws = s.mem[e.data.id].writes
            if not (len(ws) == 1 and ws[0][0] == wr[0][0] and feq(ws[0][1], x)):
                b.und('sum', w, 'container content after the push: %r' % (ws,))
            size = e.cap if regime == 'full' else iadd(e.cur, iconst(64, 1))
            s1, s2, mn, mx = stats_of(e.data, size, wr)
            out = old if regime == 'full' else None
            g1, g2, gmin, gmax = c.get(P['e']), c.get(P['e2']), c.get(P['min']), c.get(P['max'])
            base1 = fadd(e.e, x)
            base2 = fadd(e.e2, fmul(x, x))
            if out is not None:
                base1 = fsub(base1, out)
                base2 = fsub(base2, fmul(out, out))
            stat_eq(b, 'sum', s, g1, [base1], s1, e, w, 'sum')
            stat_eq(b, 'squares', s, g2, [base2], s2, e, w, 'sum of squares')
            for rid, got, ref, ext, sg in (('min', gmin, mn, e.mn, 1), ('max', gmax, mx, e.mx, -1)):
                le = (lambda p_, q_: entails_le(s.facts, p_, q_)) if sg == 1 else (lambda p_, q_: entails_le(s.facts, q_, p_))
                lt = (lambda p_, q_: entails_lt(s.facts, p_, q_)) if sg == 1 else (lambda p_, q_: entails_lt(s.facts, q_, p_))
                opts = []
                if regime == 'empty':
                    opts.append(x)
                else:
                    if le(x, ext):
                        opts.append(x)
                    if le(ext, x) and (out is None or lt(ext, out)):
                        opts.append(ext)
                if regime != 'empty' and strict(b, E, rid, s, got, x, ext, out, sg, w):
                    continue
                stat_eq(b, rid, s, got, opts, ref, e, w, 'minimum' if sg == 1 else 'maximum')
        b.engine(E)
    E = Engine(ctx.m, models=model_alloc(MATH))
    st = State()
    set_hooks(E, st)
    o = E.new_obj(st, 'peaks', P['#size'], 'param', init='undef')
    cap = iatom(64, fresh_atom('capacity', 0, (1 << 64) - 1))
    for s, v in E.call(st.copy(), 'peaks_init', [Ptr(o.id, iconst(64, 0)), cap]):
        b.cov['partitions'] += 1
        w = 'peaks_init'
        if not isinstance(v, I) or v.const() is None or v.sconst() < 0:
            continue
        b.eq('empty', s, cell(s, o, P['e']), fconst(0), w, 'sum')
        b.eq('empty', s, cell(s, o, P['e2']), fconst(0), w, 'sum of squares')
        # whatever the representation of "no minimum", the first push must define it
        x = fvar('x', nan=False)
        for s2, _ in E.call(s.copy(), 'peaks_push', [Ptr(o.id, iconst(64, 0)), x]):
            for f, want in (('e', x), ('e2', fmul(x, x)), ('min', x), ('max', x)):
                b.eq('empty', s2, cell(s2, o, P[f]), want, 'first peaks_push after peaks_init', f)
        for s2, n in E.call(s.copy(), 'peaks_size', [Ptr(o.id, iconst(64, 0))]):
            b.eq('empty', s2, n, iconst(64, 0), 'peaks_size after peaks_init', 'size')
    b.engine(E)
    # exact histories, for witnesses where the general argument is open
    if not b.count('violation') and (b.count('undecided') or tier != 'quick'):
        for cap, n in ((1, 3), (2, 4), (3, 5)) + (((3, 6),) if tier != 'quick' else ()):
            history(ctx, b, cap, n)
            if b.count('violation'):
                break
