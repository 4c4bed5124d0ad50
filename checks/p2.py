"""P23: the five-marker batch quantile."""
import itertools
from sa.harness import *
from sa.engine import where
from sa.loops import entails_le
from sa.valuation import Bad, close


def entry(E, nonan=True):
    st = State()
    size = iatom(64, fresh_atom('size', 0, 1 << 60))
    d = E.new_obj(st, 'data', iscale(size, 8), 'param', init='lazy', elem=(8, 'double'))
    d.nonan = nonan
    p = fvar('p', nan=False)
    return st, size, d, p


def sort5_contract(rec):
    """five values in, the same values in increasing order out (what rule `sort` establishes)"""
    def h(E, st, ins, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.off.const() is None:
            raise Undecided('sort5 of %r' % (p,))
        base = p.off.const()
        o = st.wobj(p.obj)
        before = [o.cells.get(base + 8 * i) for i in range(5)]
        cells = {}
        for oid, x in st.mem.items():
            cells[oid] = dict(x.cells)
        rec.append({'obj': p.obj, 'base': base, 'before': before, 'cells': cells, 'where': where(ins)})
        new = [fvar('s%d' % i, nan=False) for i in range(5)]
        for i in range(5):
            E.store(st, ins, Ptr(p.obj, iconst(64, base + 8 * i)), new[i], 8)
        for x, y in zip(new, new[1:]):
            st.facts.f_add(fsub(x, y).num, False, 1)
        st.events = st.events + (Event('sort5', list(a), None, ins),)
        return [(st, None)]
    return h


def sort5(ctx, b):
    """every arrangement (ties included) of five numbers"""
    E = Engine(ctx.m, max_states=200000)
    st = State()
    o = E.new_obj(st, 'a', 40, 'param')
    v = [fvar('a%d' % i, nan=False) for i in range(5)]
    for i in range(5):
        o.cells[8 * i] = v[i]
    keys = sorted(x.key() for x in v)
    n = 0
    for s, _ in E.call(st, 'sort5', [Ptr(o.id, iconst(64, 0))]):
        n += 1
        out = [cell(s, o, 8 * i) for i in range(5)]
        if any(not isinstance(x, F) for x in out):
            b.und('sort', 'sort5', 'value not tracked')
            continue
        pts = None
        if sorted(x.key() for x in out) == keys:
            b.ok('sort', 'sort5', 'permutation')
        else:
            pts = sample(s.facts, tuple(v), n=4)
            if pts and s.exact:
                b.bad('sort', 'sort5', 'the result is not a rearrangement of the input: %r for %s; partition: %s' % (out, show_point(pts[0]), part(s)))
            else:
                b.und('sort', 'sort5', 'result %r' % out)
            continue
        for i in range(4):
            if entails_le(s.facts, out[i], out[i + 1]):
                b.ok('sort', 'sort5', 'order')
            else:
                hit = None
                for pt in sample(s.facts, tuple(v), n=8):
                    if pt.F(out[i]) > pt.F(out[i + 1]):
                        hit = pt
                if hit is not None and s.exact:
                    b.bad('sort', 'sort5', 'positions %d and %d are out of order for the input %s; partition: %s' % (i, i + 1, [hit.F(x) for x in v], part(s)))
                else:
                    b.und('sort', 'sort5', 'order of positions %d, %d' % (i, i + 1))
    b.cov['partitions'] += n
    b.engine(E)


def arrays(rec, want):
    """offsets of arrays of five cells that look like `want` (three or more of the five agree): [(obj, off, mismatches)]"""
    out = []
    for oid, cells in rec['cells'].items():
        for off in cells:
            if not isinstance(off, int) or not all(isinstance(cells.get(off + 8 * i), F) for i in range(5)):
                continue
            v = [cells[off + 8 * i] for i in range(5)]
            bad = [i for i in range(5) if not feq(v[i], want[i])]
            if len(bad) <= 2:
                out.append((oid, off, bad, v))
    out.sort(key=lambda x: len(x[2]))
    return out


def p23(ctx, b, tier):
    ctx.need('p2_quantile')
    b.rule('sort', 'sorting five numbers returns the same numbers in increasing order, whatever their arrangement')
    b.rule('start', 'the markers start as the first five values in order, at positions 0..4, with the desired positions of the requested probability')
    b.rule('extremes', 'the outer markers are the smallest and the largest value seen')
    b.rule('order', 'the markers stay in increasing order after every value')
    b.rule('update', 'a middle marker moves by one position exactly when it is off by one or more and there is room, to the parabolic prediction when that lies between its neighbours and to the linear one otherwise')
    b.rule('advance', 'a value between the extremes advances the position of the markers above it and all desired positions by the amounts of the requested probability')
    b.rule('within', 'the estimate is the middle marker, hence between the smallest and the largest value of the batch')
    if ctx.fn('sort5'):
        sort5(ctx, b)
    else:
        b.und('sort', 'p2', 'no function sort5')
    rec = []
    E = Engine(ctx.m, models={'sort5': sort5_contract(rec)}, max_states=300000)
    E.want_order = E.opaque_nl = E.div_lemma = True
    st, size, d, p = entry(E)
    steps = []

    def hook(L, it, s, r):
        if rec and it == 0:
            steps.append((L, s, r))
    E.leaf_hook = hook
    res = E.call(st, 'p2_quantile', [p, Ptr(d.id, iconst(64, 0)), size])
    b.engine(E)
    b.cov['partitions'] += len(res)
    if not rec:
        b.und('start', 'p2_quantile', 'sort5 is not used')
        return
    R = rec[-1]
    w = R['where']
    for i, x in enumerate(R['before']):
        b.eq('start', st, x, elem_of(d, iconst(64, 8 * i)), w, 'marker %d' % i)
    two, four, half = fconst(2), fconst(4), fconst(Fr(1, 2))
    A = {}
    for nm, want in (('n', [fconst(i) for i in range(5)]),
                     ('np', [fconst(0), fmul(two, p), fmul(four, p), fadd(two, fmul(two, p)), four]),
                     ('dn', [fconst(0), fmul(half, p), p, fmul(half, fadd(p, fconst(1))), fconst(1)])):
        c = arrays(R, want)
        if not c:
            if nm != 'dn':
                b.und('start', w, 'no array of positions %s' % nm)
            continue
        oid, off, bad, v = c[0]
        A[nm] = (oid, off)
        label = {'n': 'position', 'np': 'desired position', 'dn': 'increment of the desired position'}[nm]
        for i in range(5):
            if i in bad:
                b.bad('start', w, 'the %s of marker %d starts as %s, expected %s' % (label, i, short(v[i]), short(want[i])))
            else:
                b.ok('start', w, '%s %d' % (label, i))
    q = [(R['obj'], R['base'] + 8 * i) for i in range(5)]
    outer(ctx, b, E, res, q, A, p, d, size)
    positions(b, steps, q, A, d)
    inner(b, steps, q, A, w)


def get(s, c):
    o = s.mem.get(c[0])
    return o.cells.get(c[1]) if o else None


def positions(b, steps, q, A, d):
    """on entry to the adjustment of the markers: which positions the new value has advanced"""
    if 'n' not in A or 'np' not in A:
        return
    n = [(A['n'][0], A['n'][1] + 8 * i) for i in range(5)]
    from sa.loops import header_line
    seen = set()
    for L, s, r in steps:
        Q, N = [get(s, c) for c in q], [get(s, c) for c in n]
        moved = any(get(leaf[0], c) != get(s, c) for leaf in r['back'] for c in q)
        if not moved or any(not isinstance(x, F) for x in Q + N):
            continue
        if any(s.facts.nan.get(g) for y in Q for g in y.gens()):
            continue              # markers are numbers: rule `order`
        lv = [(None, 0) if x.isconst() is not None else lvof(x) for x in N]
        if any(x is None for x in lv) or not any(x[0] for x in lv):
            continue
        x = newest(s, d)
        if x is None:
            continue
        sig = (L.header.idx, tuple(c for _, c in lv), x.key(), tuple(sorted(s.facts.describe())))
        if sig in seen:
            continue
        seen.add(sig)
        b.cov['partitions'] += 1
        w = 'p2.c:%s (%s)' % (header_line(L), L.fn.name)
        s = s.copy()
        s.facts = s.facts.copy()      # markers in order on entry: rule `order`
        for y, z in zip(Q, Q[1:]):
            if fsub(y, z).isconst() is None:
                s.facts.f_add(fsub(y, z).num, False, 1)
        for i, (_, c) in enumerate(lv):
            above, below = entails_le(s.facts, x, Q[i]), entails_le(s.facts, Q[i], x)
            if c == 1 and above or c == 0 and below:
                b.ok('advance', w, 'position %d' % i)
            elif c not in (0, 1) and s.exact and sample(s.facts, tuple(Q) + (x,), n=1):
                b.bad('advance', w, 'the position of marker %d advances by %s' % (i, c))
            elif c == 0:
                refute(b, 'advance', w, s, lambda v: ordered(v, Q) and v.F(x) < v.F(Q[i]), tuple(Q) + (x,), 'a value below marker %d does not advance its position' % i)
            elif c == 1:
                refute(b, 'advance', w, s, lambda v: ordered(v, Q) and v.F(x) > v.F(Q[i]), tuple(Q) + (x,), 'a value above marker %d advances its position' % i)
            else:
                b.und('advance', w, 'position %d advances by %s' % (i, c))


def ordered(v, Q):
    z = [v.F(x) for x in Q]
    return all(x <= y for x, y in zip(z, z[1:]))


def lvof(x):
    """x = loop value + integer constant"""
    if x.sp or x.den != P1:
        return None
    c = x.num.get((), Fr(0))
    rest = [m for m in x.num if m != ()]
    if len(rest) != 1 or x.num[rest[0]] != 1 or c.denominator != 1:
        return None
    g = rest[0]
    if len(g) != 1 or g[0][1] != 1 or Gen.byid[g[0][0]].kind != 'lv':
        return None
    return g[0][0], int(c)


def newest(s, d):
    """the element of the batch the current iteration compares with the markers"""
    best = None
    for g in {g for con in s.facts.fl for m, _ in con[0] for g, _ in m}:
        G = Gen.byid[g]
        if G.kind == 'elem' and G.key[0][0] == d.id:
            if best is not None:
                return None
            best = fgen(G)
    return best


def outer(ctx, b, E, res, q, A, p, d, size):
    done = False
    for s, v in res:
        if not any(getattr(e, 'name', '') == 'sort5' for e in s.events):
            # only batches too short for five markers have no markers
            t, c = size.lin()
            if s.facts.i_le(t, c - 4):
                b.ok('start', 'p2_quantile', 'no markers for fewer than five values')
            elif s.exact and not s.facts.i_infeasible({a: -x for a, x in t.items()}, 5 - c):
                b.bad('start', 'p2_quantile', 'a batch of five values or more is not given any marker; partition: %s' % part(s))
            else:
                b.und('start', 'p2_quantile', 'no markers; partition: %s' % part(s))
            continue
        qs = [get(s, c) for c in q]
        wv = 'p2_quantile'
        if isinstance(v, F) and all(isinstance(x, F) for x in qs):
            if entails_le(s.facts, qs[0], v) and entails_le(s.facts, v, qs[4]):
                b.ok('within', wv)
            else:
                b.und('within', wv, 'estimate %s' % short(v))
            if v == qs[2]:
                b.ok('within', wv, 'middle marker')
            elif v in qs:
                b.bad('within', wv, 'the estimate is marker %d, not the middle one' % qs.index(v))
            else:
                b.und('within', wv, 'estimate is not a marker: %s' % short(v))
        for info in s.loops.values():
            vs = {var: x['lv'] for var, x in info['vars'].items()}
            if sum(('cell',) + c in vs for c in q) < 3 or done:
                continue
            for c in q:          # a marker the loop never writes keeps its value
                vs.setdefault(('cell',) + c, get(s, c))
            done = True
            loop(b, E, s, info, vs, q, A, p, d, size)
    if not done:
        b.und('order', 'p2_quantile', 'no loop over the remaining values recognised')


def loop(b, E, s, info, vs, q, A, p, d, size):
    w = 'p2.c:%s (%s)' % (info['line'], info['fn'])
    lv = [vs[('cell',) + c] for c in q]
    for i in (1, 2, 3):
        if ('cell',) + q[i] not in info['vars']:
            b.bad('update', w, 'marker %d is never adjusted' % i)
        else:
            b.ok('update', w, 'marker %d is adjusted' % i)
    cnt = info.get('count')
    if cnt is None:
        b.und('advance', w, 'number of values treated unknown')
    else:
        b.eq('advance', s, cnt, isub(size, iconst(64, 5)), w, 'number of values treated after the first five')
    have = {(x[1:], y[1:]) for x, y in info['order']}
    for i in range(4):
        if (q[i], q[i + 1]) in have:
            b.ok('order', w, 'markers %d, %d' % (i, i + 1))
        else:
            b.und('order', w, 'markers %d and %d not shown ordered' % (i, i + 1))
    b.cov['partitions'] += len(info['leaves'])
    J0 = info['k']
    inc = 0
    for leaf in info['leaves']:
        ls = leaf['state']
        nq = [leaf['next'].get(('cell',) + c, vs[('cell',) + c]) for c in q]
        # the value read in this iteration: data[5 + k]
        x = elem_of(d, iadd(iconst(64, 40), I(64, 0, {J0.id: 8})))
        for idx, cmp_ in ((0, -1), (4, 1)):
            new, old = nq[idx], lv[idx]
            if new == old:
                # must not be beyond
                ok = entails_le(ls.facts, old, x) if cmp_ < 0 else entails_le(ls.facts, x, old)
                if ok:
                    b.ok('extremes', w)
                else:
                    refute(b, 'extremes', w, ls, lambda v: (v.F(x) < v.F(old)) if cmp_ < 0 else (v.F(x) > v.F(old)), (x, old),
                           'a value beyond marker %d does not become the extreme' % idx)
            elif new == x:
                ok = entails_le(ls.facts, x, old) if cmp_ < 0 else entails_le(ls.facts, old, x)
                if ok:
                    b.ok('extremes', w)
                else:
                    refute(b, 'extremes', w, ls, lambda v: (v.F(x) > v.F(old)) if cmp_ < 0 else (v.F(x) < v.F(old)), (x, old),
                           'marker %d is replaced by a value that is not beyond it' % idx)
            else:
                b.und('extremes', w, 'marker %d becomes %s' % (idx, short(new)))
        # desired positions
        if 'np' in A:
            half = fconst(Fr(1, 2))
            want = [fconst(0), fmul(half, p), p, fmul(half, fadd(p, fconst(1))), fconst(1)]
            ch = []
            for i in range(5):
                c = ('cell', A['np'][0], A['np'][1] + 8 * i)
                if c not in vs:
                    ch.append(fconst(0))
                    continue
                ch.append(fsub(leaf['next'][c], vs[c]))
            moved = any(x.isconst() != 0 for x in ch)
            interior = entails_le(ls.facts, lv[0], x) and entails_le(ls.facts, x, lv[4])
            if moved:
                inc += 1
                for i in range(5):
                    if feq(ch[i], want[i]):
                        b.ok('advance', w, 'desired position %d' % i)
                    elif 'p2' and all(Gen.byid[g].kind not in ('lv', 'op') for g in ch[i].gens()) and ch[i].single() is None or ch[i] == p or ch[i].isconst() is not None:
                        b.bad('advance', w, 'the desired position of marker %d advances by %s, expected %s' % (i, short(ch[i]), short(want[i])))
                    else:
                        b.und('advance', w, 'desired position %d advances by %s' % (i, short(ch[i])))
            elif interior:
                if ls.exact:
                    b.bad('advance', w, 'a value between the extremes does not advance the desired positions; partition: %s' % part(ls))
                else:
                    b.und('advance', w, part(ls))
    if 'np' in A and not inc:
        b.bad('advance', w, 'no value advances the desired positions')


def refute(b, rid, w, s, pred, exprs, msg):
    if s.exact:
        for v in sample(s.facts, exprs, n=8):
            try:
                if pred(v):
                    b.bad(rid, w, '%s, e.g. %s; partition: %s' % (msg, show_point(v), part(s)))
                    return
            except (Bad, OverflowError, ZeroDivisionError):
                continue
    b.und(rid, w, msg)


def spec_step(q, n, np, i, nan=False):
    """one adjustment of marker i of the P2 algorithm, on numbers"""
    d = np[i] - n[i]
    if (d >= 1 and n[i + 1] - n[i] > 1) or (d <= -1 and n[i - 1] - n[i] < -1):
        s = 1 if d > 0 else -1
        qp = q[i] + s / (n[i + 1] - n[i - 1]) * ((n[i] - n[i - 1] + s) * (q[i + 1] - q[i]) / (n[i + 1] - n[i]) +
                                                 (n[i + 1] - n[i] - s) * (q[i] - q[i - 1]) / (n[i] - n[i - 1]))
        if nan or not (q[i - 1] < qp < q[i + 1]):
            qp = q[i] + s * (q[i + s] - q[i]) / (n[i + s] - n[i])
            return qp, n[i] + s, 'linear'
        return qp, n[i] + s, 'parabolic'
    return q[i], n[i], 'none'


def qnear(Q, N, NP, i):
    s = 1 if NP[i] > N[i] else -1
    qp = Q[i] + s / (N[i + 1] - N[i - 1]) * ((N[i] - N[i - 1] + s) * (Q[i + 1] - Q[i]) / (N[i + 1] - N[i]) +
                                             (N[i + 1] - N[i] - s) * (Q[i] - Q[i - 1]) / (N[i] - N[i - 1]))
    sc = 1e-9 * (1 + max(map(abs, Q)))
    return abs(qp - Q[i - 1]) < sc or abs(qp - Q[i + 1]) < sc


def boundary(facts, fx, ex, out, i, nan):
    """the partition on the decision boundaries (difference exactly one): which side it takes"""
    Q, N, NP = ex[:5], ex[5:10], ex[10:]
    one = fconst(1)
    for kind, e in (('d', fsub(fsub(NP[i], N[i]), one)), ('d', fadd(fsub(NP[i], N[i]), one)),
                    ('up', fsub(fsub(N[i + 1], N[i]), one)), ('down', fsub(fsub(N[i], N[i - 1]), one))):
        if e.den != P1 or e.isconst() is not None or facts.f_infeasible(e.num, False, 1) or facts.f_infeasible(e.num, False, -1):
            continue
        f = fx.copy()
        f.f_add(e.num, False, 1)
        f.f_add(e.num, False, -1)
        for v in sample(f, tuple(ex + out), n=8, tries=200, nanops=not nan):
            try:
                V = [v.F(x) for x in ex]
                q, n, np = V[:5], V[5:10], V[10:]
                if not all(x <= y for x, y in zip(q, q[1:])) or not all(x < y for x, y in zip(n, n[1:])):
                    continue
                d, up, down = np[i] - n[i], n[i + 1] - n[i], n[i] - n[i - 1]
                if any(abs(abs(t) - 1) < 1e-9 for k, t in (('d', d), ('up', up), ('down', down)) if k != kind) or abs(v.F(e)) > 1e-9:
                    continue
                d, up, down = [float(round(t)) if k == kind else t for k, t in (('d', d), ('up', up), ('down', down))]
                move = (d >= 1 and up > 1) or (d <= -1 and down > 1)
                gn = v.F(out[1])
                if move != (abs(gn - n[i]) > 0.5):
                    return 'difference to the desired position %.9g, gap above %.9g, gap below %.9g: marker %d %s, expected %s' % (
                        d, up, down, i, 'stays' if move else 'moves', 'to move' if move else 'to stay')
            except (Bad, OverflowError, ZeroDivisionError):
                continue
    return ''


def inner(b, steps, q, A, w0):
    """first adjustment of the loop over the middle markers: every partition against the algorithm"""
    if 'n' not in A or 'np' not in A:
        b.und('update', w0, 'positions not recognised')
        return
    n = [(A['n'][0], A['n'][1] + 8 * i) for i in range(5)]
    np = [(A['np'][0], A['np'][1] + 8 * i) for i in range(5)]
    cand = []
    for L, s, r in steps:
        ch = set()
        for leaf in r['back']:
            for i in range(5):
                if get(leaf[0], q[i]) != get(s, q[i]):
                    ch.add(i)
        if ch and all(get(leaf[0], np[i]) == get(s, np[i]) for leaf in r['back'] for i in range(5)):
            cand.append((L, s, r, ch))
    if not cand:
        b.und('update', w0, 'no loop over the middle markers recognised')
        return
    kinds = {}
    seen = set()
    for L, s, r, ch in reversed(cand):
        if L.header.idx in seen:
            continue
        seen.add(L.header.idx)
        from sa.loops import header_line
        w = 'p2.c:%s (%s)' % (header_line(L), L.fn.name)
        if len(ch) != 1:
            b.und('update', w, 'one iteration changes markers %s' % sorted(ch))
            continue
        i = ch.pop()
        for leaf in r['back']:
            ls = leaf[0]
            ex = [get(s, c) for c in q + n + np]
            out = [get(ls, q[i]), get(ls, n[i])]
            if any(not isinstance(x, F) for x in ex + out):
                b.und('update', w, 'value not tracked')
                continue
            b.cov['partitions'] += 1
            good = bad = 0
            why = ''
            # the prediction is undefined (NaN): it is not between the neighbours
            nan = any(bv and Gen.byid[g].kind in ('op:fmul', 'op:fdiv') for g, bv in ls.facts.nan.items())
            fx = ls.facts.copy()
            for z, strict in ((ex[:5], False), (ex[5:10], True)):
                for x, y in zip(z, z[1:]):
                    df = fsub(x, y)
                    if df.isconst() is None:
                        fx.f_add(df.num, strict, 1)
            pts = sample(fx, tuple(ex + out), n=12, tries=200, nanops=not nan) or sample(ls.facts, tuple(ex + out), n=8, tries=200, nanops=not nan)
            for v in pts:
                try:
                    V = [v.F(x) for x in ex]
                    Q, N, NP = V[:5], V[5:10], V[10:]
                    # states the algorithm can be in: markers in order, positions increasing
                    if not all(x <= y for x, y in zip(Q, Q[1:])) or not all(x < y for x, y in zip(N, N[1:])):
                        continue
                    eq, en, kind = spec_step(Q, N, NP, i, nan)
                    gq, gn = v.F(out[0]), v.F(out[1])
                    # too close to a decision boundary for floating-point sampling, unless the numbers are exact
                    near = any(abs(t - 1) < 1e-9 and t != 1 or t == 1 and any(z * 1024 != int(z * 1024) for z in N + NP)
                               for t in (abs(NP[i] - N[i]), N[i + 1] - N[i], N[i] - N[i - 1])) or qnear(Q, N, NP, i)
                    if close(gq, eq, scale=max(map(abs, Q)) + 1) and close(gn, en):
                        good += 1
                        kinds[kind] = kinds.get(kind, 0) + 1
                    elif near:
                        continue
                    else:
                        bad += 1
                        why = 'markers %s positions %s desired %s: marker %d becomes %.6g at %.6g, expected %.6g at %.6g (%s)' % (
                            Q, N, NP, i, gq, gn, eq, en, kind)
                except (Bad, OverflowError, ZeroDivisionError):
                    continue
            if not good and not bad:
                # (probably empty) partition: the new value must still be one of the two predictions
                forms = {'linear': True, 'parabolic': True, 'none': True}
                for v in sample(s.facts, tuple(ex + out), n=30, tries=200, nanops=False):
                    try:
                        V = [v.F(x) for x in ex]
                        Q, N, NP = V[:5], V[5:10], V[10:]
                        gq, gn = v.F(out[0]), v.F(out[1])
                        sg = gn - N[i]
                        if abs(abs(sg) - 1) > 1e-9 and abs(sg) > 1e-9:
                            forms = {}
                            break
                        sg = int(round(sg))
                        lin = Q[i] + (sg * (Q[i + sg] - Q[i]) / (N[i + sg] - N[i]) if sg else 0)
                        par = Q[i] + sg / (N[i + 1] - N[i - 1]) * ((N[i] - N[i - 1] + sg) * (Q[i + 1] - Q[i]) / (N[i + 1] - N[i]) +
                                                                   (N[i + 1] - N[i] - sg) * (Q[i] - Q[i - 1]) / (N[i] - N[i - 1]))
                        for nm, val in (('linear', lin), ('parabolic', par), ('none', Q[i])):
                            if not close(gq, val, scale=max(map(abs, Q)) + abs(val) + 1):
                                forms.pop(nm, None)
                    except (Bad, OverflowError, ZeroDivisionError):
                        continue
                if forms:
                    good = 1
                    kinds['no point, form ' + '/'.join(sorted(forms))] = 1
            if not bad and ls.exact:
                why = boundary(ls.facts, fx, ex, out, i, nan)
                bad = bool(why)
            if bad and ls.exact:
                b.bad('update', w, why)
            elif bad or not good:
                b.und('update', w, why or 'no point found in the partition %s' % part(ls))
            else:
                b.ok('update', w)
    b.cov['update_kinds'] = kinds
