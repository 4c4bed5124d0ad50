"""P20 (special values, defined conversions), P21 (accuracy), P22 (float helpers): Taylor-model abstract interpretation."""
import math
import time
from fractions import Fraction as Fr

EXP_TOL, EXP_ABS = 1e-12, 1e-307
LOG_TOL = 4e-11
MAXD = Fr(2) ** 1024 - Fr(2) ** 970
MIN = Fr(2) ** -1074
LN_MAX = Fr(709782712893384, 10 ** 12)        # just above log(largest double)
_job = {}
LIMIT = 80             # seconds per sweep; what is left then is reported as undecided


def _one(i):
    from sa import tm
    m, f, lo, hi, judge, mx = _job['m'], *_job['l'][i][:3], _job['l'][i][3], _job['l'][i][4]
    try:
        out, st = tm.explore(m, f, lo, hi, judge, maxboxes=mx, deadline=_job['deadline'])
    except Exception as ex:
        out, st = [('und', 'internal error: %r' % (ex,), lo, hi)], {'boxes': 0, 'fns': set()}
    agg = {}
    for s, t, a, b in out:
        if s != 'ok':
            agg.setdefault(s, []).append((t, tm.fshow(a), tm.fshow(b)))
    return i, sum(1 for o in out if o[0] == 'ok'), {k: (len(v), v[:3]) for k, v in agg.items()}, st['boxes'], st['fns']


def sweep(ctx, b, rid, jobs, what):
    """jobs: (function, lo, hi, judge, maxboxes)"""
    import multiprocessing as mp
    _job['m'], _job['l'] = ctx.m, jobs
    _job['deadline'] = time.time() + LIMIT
    n = 0
    with mp.get_context('fork').Pool(min(8, mp.cpu_count() or 1)) as p:
        for i, nok, agg, boxes, fns in p.imap_unordered(_one, range(len(jobs)), chunksize=max(1, len(jobs) // 64)):
            b.cov['functions'] |= fns
            b.cov['partitions'] += boxes
            f, lo, hi = jobs[i][:3]
            from sa.tm import fshow
            w = '%s on [%s, %s]' % (f, fshow(lo), fshow(hi))
            for st in ('bad', 'und'):
                if st in agg:
                    k, ex = agg[st]
                    t = '%s: for every argument between %s and %s: %s' % (what, ex[0][1], ex[0][2], ex[0][0])
                    (b.bad if st == 'bad' else b.und)(rid, w, t)
            if not agg:
                b.ok(rid, w, '%d boxes' % nok)
            n += boxes
    return n


def fin(r):
    from sa import tm
    return tm.exact(r) if isinstance(r, float) else r


def dev(r, T, tol, base, ab=0.0):
    """verdict on |r - T| <= tol*(base + |T|) + ab"""
    from sa import tm
    D = tm.add(fin(r), T, True)
    lo, hi = D.range()
    l, h = T.range()
    mx, mn = max(abs(lo), abs(hi)), (Fr(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)))
    tmin = Fr(0) if l <= 0 <= h else min(abs(l), abs(h))
    tmax = max(abs(l), abs(h))
    if mx <= Fr(tol) * (Fr(base) + tmin) + Fr(ab):
        return 'ok', ''
    if mn > Fr(tol) * (Fr(base) + tmax) + Fr(ab):
        return 'bad', 'the result differs from the true value (%s) by at least %s' % (tm.fshow((l + h) / 2), tm.fshow(mn))
    return 'split', 'difference up to %s not excluded' % tm.fshow(mx)


def j_exp(r, lo, hi, it):
    from sa import tm
    if it.notes:
        return 'bad', it.notes[0][2]
    if isinstance(r, float) and r != r:
        return 'bad', 'the result is NaN'
    if isinstance(r, float) and math.isinf(r):
        return 'bad', 'the result is infinite'
    return dev(r, tm.true_exp(lo, hi), EXP_TOL, 0, EXP_ABS)


def j_log(r, lo, hi, it):
    from sa import tm
    if isinstance(r, float) and not math.isfinite(r):
        return 'bad', 'the result is %r' % r
    return dev(r, tm.true_log(lo, hi), LOG_TOL, 1)


def j_is(want):
    def j(r, lo, hi, it):
        if it.notes:
            return 'bad', it.notes[0][2]
        if isinstance(r, float) and (r == want or r != r and want != want):
            return 'ok', ''
        if isinstance(r, float):
            return 'bad', 'the result is %r, expected %r' % (r, want)
        if math.isfinite(want):
            lo_, hi_ = r.range()
            if lo_ <= Fr(want) <= hi_:
                return 'split', 'result %r' % r
        return 'bad', 'the result is %r, expected %r' % (r, want)
    return j


def j_small(r, lo, hi, it):
    """an underflowing exponential: between 0 and 1e-307"""
    if it.notes:
        return 'bad', it.notes[0][2]
    if isinstance(r, float):
        return ('ok', '') if 0 <= r <= 1e-307 else ('bad', 'the result is %r for an exponential below 1e-307' % r)
    a, c = r.range()
    if a >= -MIN and c <= Fr(1e-307):
        return 'ok', ''
    if a > Fr(1e-307) or c < 0:
        return 'bad', 'the result is %r for an exponential below 1e-307' % r
    return 'split', repr(r)


def j_over(r, lo, hi, it):
    """an overflowing exponential"""
    return j_is(math.inf)(r, lo, hi, it)


def j_edge(r, lo, hi, it):
    """at the limit of overflow: infinite, or accurate"""
    from sa import tm
    if isinstance(r, float) and r == math.inf:
        return 'ok', ''
    return j_exp(r, lo, hi, it)


def special(ctx, b, rid, f, x, ok, want):
    """constant propagation for a non-finite or zero argument"""
    from sa import tm
    it = tm.Interp(ctx.m)
    w = '%s(%r)' % (f, x)
    try:
        r = it.call(f, [x])
    except tm.Undecided as u:
        if it.notes:
            b.bad(rid, tm.loc(it.notes[0][1]), '%s: %s' % (w, it.notes[0][2]))
        elif isinstance(u, tm.Wrong):
            b.bad(rid, w, str(u))
        else:
            b.und(rid, w, str(u))
        return
    b.cov['functions'] |= it.fns
    b.cov['partitions'] += 1
    if not isinstance(r, float):
        b.und(rid, w, 'result %r' % (r,))
    elif ok(r):
        b.ok(rid, w, repr(r))
    else:
        b.bad(rid, w, 'the result is %r, expected %s' % (r, want))


def nan(r):
    return r != r


def p20(ctx, b, tier):
    ctx.need('xexp', 'xlog', 'is_nan', 'xmin')
    b.rule('special', 'NaN, infinities and zeros give the values of the mathematical limits')
    b.rule('range', 'an exponential too large is infinite, one too small is (almost) zero, and a negative number has no logarithm')
    b.rule('conversion', 'no conversion of a floating-point value to an integer is out of range, for any argument')
    b.rule('min', 'the minimum of two numbers is one of them and not above the other; NaN when one of them is')
    inf = math.inf
    for x in (math.nan, -math.nan):
        special(ctx, b, 'special', 'xexp', x, nan, 'NaN')
        special(ctx, b, 'special', 'xlog', x, nan, 'NaN')
    special(ctx, b, 'special', 'xexp', inf, lambda r: r == inf, '+infinity')
    special(ctx, b, 'special', 'xexp', -inf, lambda r: r == 0, '0')
    for z in (0.0, -0.0):
        special(ctx, b, 'special', 'xexp', z, lambda r: r == 1, '1')
        special(ctx, b, 'special', 'xlog', z, lambda r: r == -inf, '-infinity')
    special(ctx, b, 'special', 'xlog', inf, lambda r: r == inf, '+infinity')
    special(ctx, b, 'special', 'xlog', -inf, nan, 'NaN')
    E = [('xexp', LN_MAX, Fr(712), j_over, 200), ('xexp', Fr(712), Fr(1 << 20), j_over, 400), ('xexp', Fr(1 << 20), Fr(2) ** 40, j_over, 200),
         ('xexp', Fr(2) ** 40, MAXD, j_over, 200),
         ('xexp', -Fr(2000), -Fr(746), j_small, 400), ('xexp', -Fr(746), -Fr(708), j_small, 400), ('xexp', -Fr(1 << 20), -Fr(2000), j_small, 200),
         ('xexp', -Fr(2) ** 40, -Fr(1 << 20), j_small, 200), ('xexp', -MAXD, -Fr(2) ** 40, j_small, 200),
         ('xexp', Fr(7097, 10), LN_MAX, j_edge, 400)]
    sweep(ctx, b, 'range', E, 'exponential')
    L = []
    for lo, hi in ((-MAXD, -Fr(2) ** 512), (-Fr(2) ** 512, -Fr(1)), (-Fr(1), -Fr(2) ** -300), (-Fr(2) ** -300, -MIN)):
        L.append(('xlog', lo, hi, j_is(math.nan), 200))
    sweep(ctx, b, 'range', L, 'logarithm of a negative number')
    # conversions, everywhere else
    C = []

    def j_any(r, lo, hi, it):
        return ('bad', it.notes[0][2]) if it.notes else ('ok', '')
    for i in range(-746, 711, 8):
        C.append(('xexp', Fr(i), min(Fr(i + 8), LN_MAX), j_any, 400))
    C = [c for c in C if not c[1] < 0 < c[2]] + [('xexp', -Fr(2), -MIN, j_any, 200), ('xexp', MIN, Fr(6), j_any, 200)]
    sweep(ctx, b, 'conversion', C, 'exponential')
    mins(ctx, b)


def mins(ctx, b):
    from sa import harness as H
    from sa.harness import Engine, State, fvar, fsub
    for an in (False, True):
        for bn in (False, True):
            E = Engine(ctx.m, models={})
            st = State()
            x = H.NAN if an else fvar('a', nan=False)
            y = H.NAN if bn else fvar('b', nan=False)
            w = 'xmin(%s, %s)' % ('NaN' if an else 'a', 'NaN' if bn else 'b')
            for s, r in E.call(st, 'xmin', [x, y]):
                b.cov['partitions'] += 1
                if an or bn:
                    if r.sp == 'nan':
                        b.ok('min', w)
                    elif s.exact and r.sp != 'undef':
                        b.bad('min', w, 'the result is %r' % r)
                    else:
                        b.und('min', w, repr(r))
                    continue
                good = True
                if r.sp:
                    b.bad('min', w, 'the result is %r; partition: %s' % (r, H.part(s)))
                    continue
                for pt in H.sample(s.facts, (x, y, r), n=24):
                    vx, vy, vr = pt.F(x), pt.F(y), pt.F(r)
                    if vr != min(vx, vy):
                        good = False
                        if s.exact:
                            b.bad('min', w, 'the result is %s for a = %s, b = %s; partition: %s' % (vr, vx, vy, H.part(s)))
                        else:
                            b.und('min', w, H.part(s))
                        break
                if good:
                    b.ok('min', w, H.part(s))
            b.engine(E)
    # is_nan
    for v in (True, False):
        E = Engine(ctx.m, models={})
        st = State()
        x = H.NAN if v else fvar('x', nan=False)
        for s, r in E.call(st, 'is_nan', [x]):
            c = r.const()
            if c is None:
                b.und('special', 'is_nan', repr(r))
            elif (c != 0) == v:
                b.ok('special', 'is_nan', 'NaN' if v else 'number')
            else:
                b.bad('special', 'is_nan', '%s is %srecognised as NaN' % ('NaN' if v else 'a number', 'not ' if v else ''))
        b.engine(E)


def p21(ctx, b, tier):
    ctx.need('xexp', 'xlog', 'xpow')
    b.rule('exp', 'the exponential is within %g (relative) of the true one wherever it neither overflows nor underflows' % EXP_TOL)
    b.rule('log', 'the logarithm of every positive double (subnormal ones included) is within %g * (1 + |log|) of the true one' % LOG_TOL)
    b.rule('pow', 'the power is exp(x * log(a))')
    J = []
    step = Fr(11090354888959125, 8 * 10 ** 15)            # two binades of the argument reduction
    for sg in (1, -1):
        top = Fr(7097, 10) if sg > 0 else Fr(7083, 10)
        ed = [MIN, Fr(2) ** -40, Fr(1, 20), Fr(1, 2)]
        x = Fr(1, 2)
        while x < top:
            x = min(x + step, top)
            ed.append(x)
        for a, c in zip(ed, ed[1:]):
            J.append(('xexp', a, c, j_exp, 300) if sg > 0 else ('xexp', -c, -a, j_exp, 300))
    n = sweep(ctx, b, 'exp', J, 'exponential')
    J = []
    for e in range(-1074, 1024):
        lo, hi = Fr(2) ** e, Fr(2) ** (e + 1)
        hi -= max(Fr(2) ** (e - 52), MIN)
        J.append(('xlog', lo, hi, j_log, 600))
    n += sweep(ctx, b, 'log', J, 'logarithm')
    b.cov['boxes'] = n
    b.cov['bounds'] = {'exp_relative': EXP_TOL, 'exp_absolute': EXP_ABS, 'log': LOG_TOL}
    power(ctx, b)


def power(ctx, b):
    from sa import harness as H
    from sa.harness import Engine, State, fvar
    calls = []

    def m_log(E, st, ins, a):
        r = fvar('log', nan=False)
        st.events = st.events + (H.Event('log', list(a), r, ins),)
        return [(st, r)]

    def m_exp(E, st, ins, a):
        r = fvar('exp', nan=False)
        st.events = st.events + (H.Event('exp', list(a), r, ins),)
        return [(st, r)]
    E = Engine(ctx.m, models={'xlog': m_log, 'xexp': m_exp})
    st = State()
    a, x = fvar('a', nan=False), fvar('x', nan=False)
    for s, r in E.call(st, 'xpow', [a, x]):
        b.cov['partitions'] += 1
        lg = [e for e in s.events if getattr(e, 'name', '') == 'log']
        ex = [e for e in s.events if getattr(e, 'name', '') == 'exp']
        if len(lg) == 1 and len(ex) == 1:
            b.eq('pow', s, lg[0].args[0], a, 'xpow', 'argument of the logarithm')
            b.eq('pow', s, ex[0].args[0], H.fmul(x, lg[0].ret), 'xpow', 'argument of the exponential')
            b.eq('pow', s, r, ex[0].ret, 'xpow', 'result')
        else:
            # special cases written out: compare with the meaning of a power on witnesses of the partition
            c = None
            if isinstance(r, H.F) and not r.sp:
                for pt in H.sample(s.facts, (a, x, r), n=24):
                    try:
                        va, vx, vr = pt.F(a), pt.F(x), pt.F(r)
                        if va > 0 and abs(vr - va ** vx) > 1e-6 * (1 + abs(va ** vx)):
                            c = 'xpow(%s, %s) = %s' % (va, vx, vr)
                            break
                    except Exception:
                        continue
            if c and s.exact:
                b.bad('pow', 'xpow', c + '; partition: ' + H.part(s))
            else:
                b.und('pow', 'xpow', 'special case: %s' % H.part(s))
    b.engine(E)


# ------------------------------------------------------------------ float helpers

def defaults(ctx):
    """the pointers to the float helpers: (ldexp global, frexp global)"""
    res = {}
    for n, G in ctx.m.globals.items():
        if G.init is not None and G.init.kind == 'func':
            F = ctx.m.functions.get(G.init.v)
            if F is None or F.decl or F.ret.kind != 'double' or len(F.args) != 2 or F.args[0].ty.kind != 'double':
                continue
            if F.args[1].ty.kind == 'int':
                res['ldexp'] = (n, F.name)
            elif F.args[1].ty.kind == 'ptr':
                res['frexp'] = (n, F.name)
    return res


def same(r, x, n, sg=1):
    """r is x * 2**n exactly"""
    import numpy as np
    from sa import tm
    if isinstance(r, float):
        return False
    w = tm.scale2(x, n, sg)
    return r.s == w.s and r.err == w.err and np.array_equal(r.c, w.c)


def p22(ctx, b, tier):
    from sa import tm
    b.rule('frexp', 'the default decomposition returns m and e with x = m * 2**e exactly and 1/2 <= |m| < 1, for every finite non-zero double; 0, infinities and NaN are returned as they are, 0 with exponent 0')
    b.rule('ldexp', 'the default scaling returns x * 2**n with at most one rounding, infinite when too large, for every n')
    b.rule('replace', 'a supplied helper is the one used from then on, a null one keeps the current helper')
    d = defaults(ctx)
    if 'frexp' in d:
        frexp(ctx, b, d['frexp'][1])
    else:
        b.und('frexp', 'defaults', 'no default decomposition found')
    if 'ldexp' in d:
        ldexp(ctx, b, d['ldexp'][1], tier)
    else:
        b.und('ldexp', 'defaults', 'no default scaling found')
    replace(ctx, b)


def frexp_at(ctx, f, x):
    """constant propagation for one argument: what is wrong, if anything"""
    from sa import tm
    x = float(x)
    it = tm.Interp(ctx.m)
    p = it.obj()
    try:
        r = it.call(f, [x, p])
    except tm.Wrong as u:
        return str(u)
    except (tm.Undecided, tm.Split):
        return None
    e = it.mem[p[1]].get(0)
    if not isinstance(r, float) or not (e is None or isinstance(e, int)):
        return None
    if e is not None:
        e = e - (1 << 32) if e >> 31 else e
    if (r, e) != math.frexp(x):
        return '%s(%r) gives %r and exponent %r, expected %r' % (f, x, r, e, math.frexp(x))


def ldexp_at(ctx, f, x, n):
    from sa import tm
    x = float(x)
    it = tm.Interp(ctx.m)
    try:
        r = it.call(f, [x, n & 0xffffffff])
    except tm.Wrong as u:
        return str(u)
    except (tm.Undecided, tm.Split):
        return None
    if not isinstance(r, float):
        return None
    try:
        w = math.ldexp(x, n)
    except OverflowError:
        w = math.copysign(math.inf, x)
    if r != w:
        return '%s(%r, %d) gives %r, expected %r' % (f, x, n, r, w)


def frexp(ctx, b, f):
    from sa import tm
    for sg in (1, -1):
        for e in range(-1074, 1024):
            lo, hi = Fr(2) ** e, Fr(2) ** (e + 1) - max(Fr(2) ** (e - 52), MIN)
            if sg < 0:
                lo, hi = -hi, -lo
            it = tm.Interp(ctx.m)
            x = tm.box(lo, hi)
            p = it.obj()
            w = '%s on %s[2^%d, 2^%d)' % (f, '-' if sg < 0 else '', e, e + 1)
            b.cov['partitions'] += 1
            try:
                r = it.call(f, [x, p])
                ex = it.mem[p[1]].get(0)
            except (tm.Undecided, tm.Split) as u:
                c = next((c for c in (frexp_at(ctx, f, y) for y in (lo, hi, (lo + hi) / 2)) if c), None)
                if c:
                    b.bad('frexp', w, c)
                else:
                    b.und('frexp', w, 'not followed: %s' % (u,))
                continue
            b.cov['functions'] |= it.fns
            if not isinstance(ex, int):
                if ex is None:
                    b.bad('frexp', w, 'no exponent is stored')
                else:
                    b.und('frexp', w, 'exponent %r' % (ex,))
                continue
            ex = ex - (1 << 32) if ex >> 31 else ex
            if ex == e + 1 and same(r, x, -ex):
                b.ok('frexp', w)
            elif ex != e + 1:
                b.bad('frexp', w, 'exponent %d, expected %d' % (ex, e + 1))
            else:
                R = fin(r) if not isinstance(r, float) or math.isfinite(r) else None
                a, c = R.range() if R is not None else (None, None)
                l, h = sorted((lo / Fr(2) ** ex, hi / Fr(2) ** ex))
                if R is None or c < l or a > h:
                    b.bad('frexp', w, 'fraction %r, expected in [%s, %s]' % (r, tm.fshow(l), tm.fshow(h)))
                elif it.rounded and not isinstance(r, float) and r.err > 0:
                    b.bad('frexp', w, 'the fraction is not exact: %r' % r) if r.err > 1e-9 else b.und('frexp', w, 'fraction %r' % r)
                else:
                    b.und('frexp', w, 'fraction %r' % r)
    for x in (0.0, -0.0, math.inf, -math.inf, math.nan):
        it = tm.Interp(ctx.m)
        p = it.obj()
        w = '%s(%r)' % (f, x)
        try:
            r = it.call(f, [x, p])
        except (tm.Undecided, tm.Split) as u:
            (b.bad if isinstance(u, tm.Wrong) else b.und)('frexp', w, str(u))
            continue
        if not (isinstance(r, float) and (r == x or r != r and x != x)):
            b.bad('frexp', w, 'returns %r' % r)
        elif x == 0 and it.mem[p[1]].get(0) != 0:
            b.bad('frexp', w, 'exponent %r' % it.mem[p[1]].get(0))
        else:
            b.ok('frexp', w)


def ldexp(ctx, b, f, tier):
    from sa import tm
    edge = [0, 1, -1, 2, 52, 53, -52, -53, 1022, 1023, 1024, 1025, -1021, -1022, -1023, -1024, -1073, -1074, -1075, -1076, 2045, 2046, 2047, 2048,
            -969, -970, -1991, -1992, -2043, -2044, -2045, 3068, 3069, 3070, 3071, -2960, -2961, -2962, 5000, -5000, (1 << 31) - 1, -(1 << 31), 100000, -100000]
    plan = [(0, sorted(set(edge) | set(range(-1200, 1201)) | set(range(-2300, 2301, 1 if tier == 'thorough' else 7))))]
    for e in (-1074, -1060, -1023, -1022, -1021, -500, -1, 1, 511, 1022, 1023):
        plan.append((e, edge + ([] if tier == 'quick' else list(range(-2200, 2201, 3)))))
    for e, ns in plan:
        for sg in ((1, -1) if e in (0, -1022) else (1,)):
            lo, hi = Fr(2) ** e, Fr(2) ** (e + 1) - max(Fr(2) ** (e - 52), MIN)
            if sg < 0:
                lo, hi = -hi, -lo
            for n in ns:
                it = tm.Interp(ctx.m)
                x = tm.box(lo, hi)
                w = '%s(%s[2^%d, 2^%d), %d)' % (f, '-' if sg < 0 else '', e, e + 1, n)
                b.cov['partitions'] += 1
                try:
                    r = it.call(f, [x, n & 0xffffffff])
                except (tm.Undecided, tm.Split) as u:
                    c = ldexp_at(ctx, f, lo, n) or ldexp_at(ctx, f, hi, n)
                    if c:
                        b.bad('ldexp', w, c)
                    else:
                        b.und('ldexp', w, 'not followed: %s' % (u,))
                    continue
                b.cov['functions'] |= it.fns
                t = e + n
                if t >= 1024:
                    if isinstance(r, float) and math.isinf(r) and (r > 0) == (sg > 0):
                        b.ok('ldexp', w)
                    else:
                        b.bad('ldexp', w, 'result %r, expected an infinity' % (r,))
                    continue
                if isinstance(r, float):
                    l, h = lo * Fr(2) ** max(n, -6000), hi * Fr(2) ** max(n, -6000)
                    if math.isfinite(r) and t < -1076 and r == 0:
                        b.ok('ldexp', w)
                    elif not math.isfinite(r) or not l - MIN <= Fr(r) <= h + MIN:
                        b.bad('ldexp', w, 'result %r, expected in [%s, %s]' % (r, tm.fshow(l), tm.fshow(h)))
                    elif t >= -1074 and lo != hi:
                        b.bad('ldexp', w, 'the result %r does not depend on the argument' % r)
                    else:
                        b.ok('ldexp', w)
                    continue
                a, c = r.range()
                nn = max(n, -6000)
                l, h = lo * Fr(2) ** nn, hi * Fr(2) ** nn
                if c < l - MIN or a > h + MIN:
                    b.bad('ldexp', w, 'result %r, expected in [%s, %s]' % (r, tm.fshow(l), tm.fshow(h)))
                elif t >= -1022:
                    if same(r, x, n):
                        b.ok('ldexp', w)
                    elif e >= -1022 and r.loss:
                        b.bad('ldexp', w, 'bits are lost: %s' % r.loss[0])
                    else:
                        b.und('ldexp', w, 'result %r' % r)
                elif t >= -1074 and e >= -1022 and len(r.loss) > 1:
                    b.bad('ldexp', w, 'rounded %d times in the subnormal range: the result is not x * 2**n correctly rounded' % len(r.loss))
                elif a >= l - MIN and c <= h + MIN:
                    b.ok('ldexp', w)
                else:
                    b.und('ldexp', w, 'result %r' % r)
    for x in (0.0, -0.0, math.inf, -math.inf, math.nan):
        for n in (0, 5, -5, 1100, -1100, 5000, -5000):
            it = tm.Interp(ctx.m)
            w = '%s(%r, %d)' % (f, x, n)
            try:
                r = it.call(f, [x, n & 0xffffffff])
            except (tm.Undecided, tm.Split) as u:
                (b.bad if isinstance(u, tm.Wrong) else b.und)('ldexp', w, str(u))
                continue
            if isinstance(r, float) and (r == x or r != r and x != x):
                b.ok('ldexp', w)
            else:
                b.bad('ldexp', w, 'returns %r' % r)


def replace(ctx, b):
    """set_float_utils(l, f) followed by exp and log"""
    from sa import tm
    setter = 'set_float_utils' if ctx.fn('set_float_utils') else 'internal_set_float_utils'
    ctx.need(setter, 'xexp', 'xlog')
    d = defaults(ctx)
    for pre in (0, 1):
        for wl in (0, 1):
            for wf in (0, 1):
                used = []

                def ld(nm):
                    return lambda it, a: (used.append((nm, a)), tm.exact(1.5))[1]

                def fr(nm):
                    return lambda it, a: (used.append((nm, a)), it.store(a[1], 3), 0.625)[2]
                hooks = {'#ldexp': ld('#ldexp'), '#frexp': fr('#frexp'), '#ldexp0': ld('#ldexp0'), '#frexp0': fr('#frexp0')}
                for k, v in d.items():
                    hooks[v[1]] = (ld if k == 'ldexp' else fr)(k)
                it = tm.Interp(ctx.m, tiny=True, hooks=hooks)
                w = '%s%s(%s, %s)' % (setter + '(l0, f0) then ' if pre else '', setter, 'l' if wl else 'NULL', 'f' if wf else 'NULL')
                b.cov['partitions'] += 1
                try:
                    if pre:
                        it.call(setter, [('f', '#ldexp0'), ('f', '#frexp0')])
                    it.call(setter, [('f', '#ldexp') if wl else ('null',), ('f', '#frexp') if wf else ('null',)])
                    for fn, x, kind, sup in (('xexp', 20.0, 'ldexp', wl), ('xlog', 5.0, 'frexp', wf)):
                        used.clear()
                        it.call(fn, [x])
                        names = [u[0] for u in used]
                        want = '#' + kind if sup else '#%s0' % kind if pre else kind
                        if want in names and all(n == want for n in names):
                            b.ok('replace', w, '%s uses %s' % (fn, want))
                        elif names:
                            b.bad('replace', w, '%s then uses %s instead of %s' % (fn, ', '.join(names), 'the supplied helper' if sup else 'the helper in place'))
                        elif sup or pre:
                            b.bad('replace', w, '%s does not use the supplied %s' % (fn, kind))
                        else:
                            b.und('replace', w, '%s calls no helper' % fn)
                except (tm.Undecided, tm.Split) as u:
                    (b.bad if isinstance(u, tm.Wrong) else b.und)('replace', w, str(u))
