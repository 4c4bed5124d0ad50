"""P12: contract of the root search."""
import itertools
import random
from sa.harness import *
from sa.merge import MergeEngine
from sa.loops import Summary, entails_le
from sa import loops
from sa.ir import Const
from sa.engine import Budget, Undecided
from sa.subst import mkfun


def m_F(E, st, ins, a):
    r = fun('F', a[0])
    r.single().nan = False
    st.events = st.events + (Event('F', list(a), r, ins),)
    return [(st, r)]


class BrentEngine(MergeEngine):
    """loops that evaluate the function: relations q = F(p) and a pair of values of opposite sign as invariants"""

    def __init__(self, *a, **k):
        MergeEngine.__init__(self, *a, **k)
        self.opaque_nl = True
        self.infer = None

    def keep_gen(self, g):
        G = Gen.byid[g]
        return G.kind == 'fun'

    def kept(self, t):
        gs = {g for m, _ in t for g, _ in m}
        return len(gs) == 1 and self.keep_gen(next(iter(gs)))

    def protected(self, v):
        """function values and points at which the function was evaluated"""
        if v.sp:
            return True
        g = v.single()
        if g is not None and g.kind == 'fun':
            return True
        return v.key() in self.points

    points = frozenset()
    hint = {}
    track_open = False

    def do_loop(self, st, env, L, prev, fn):
        calls = any(i.op == 'call' and not (isinstance(i.callee, Const) and i.callee.v.startswith('llvm.'))
                    for b in fn.blocks if b.idx in L.blocks for i in b.insts)
        if not calls:
            return loops.do_loop(self, st, env, L, prev, fn)
        self.loop_uid += 1
        S = Summary(self, st, env, L, prev, fn)
        values, inv, steps = S.prepare()
        fl = [(v, i) for v, i in S.vars() if isinstance(i, F) and isinstance(values[v], F)]
        opts = []
        for q, qi in fl:
            g = qi.single() if not qi.sp else None
            if g is None or g.kind != 'fun':
                continue
            c = [p for p, pi in fl if p != q and not pi.sp and ('F', pi.key()) == g.key[1][0]]
            if c:
                opts.append((q, c))
        combos = list(itertools.product(*[c + [None] for _, c in opts]))
        names = {v: n for n, (v, _) in enumerate(fl)}
        combos.sort(key=lambda x: (x != self.hint.get('combo'), sum(1 for y in x if y is None) + sum(1 for i, y in enumerate(x) if y is not None and y in x[:i])))
        self.tried = []
        for combo in combos[:24]:
            vals = dict(values)
            chosen = []
            for (q, _), p in zip(opts, combo):
                if p is not None:
                    vals[q] = mkfun('F', (('F', values[p].key()),))
                    vals[q].single().nan = False
                    chosen.append((q, p))
            self.points = frozenset(values[p].key() for _, p in chosen)
            qs = [q for q, _ in chosen]
            init = {v: i for v, i in S.vars()}
            pairs = [(x, y) for i, x in enumerate(qs) for y in qs[i + 1:] if not self.same_sign(st, init[x], init[y])]
            for k in range(len(pairs), -1, -1):
                for sub in sorted(itertools.combinations(pairs, k), key=lambda z: z != self.hint.get('sub')):
                    if self.hint.get('combo') == combo and k > len(self.hint['sub']):
                        continue
                    r = self.attempt(S, vals, inv, chosen, sub)
                    if r is not None:
                        S.rel = chosen
                        self.hint = {'combo': combo, 'sub': sub}
                        self.infer = {'relations': [(S.names.get(q, q), S.names.get(p, p)) for q, p in chosen],
                                      'opposite': [(S.names.get(x, x), S.names.get(y, y)) for x, y in sub], 'line': S.line}
                        self.loop_log.append((fn.name, S.line, 'invariant'))
                        return S.finish(vals, inv, r, steps)
                    if len(self.tried) > 30:
                        raise Undecided('no inductive invariant for the loop at line %s' % S.line)
        raise Undecided('no inductive invariant for the loop at line %s' % S.line)

    def same_sign(self, st, a, b):
        """can a and b have the same strict sign?"""
        for op in ('ogt', 'olt'):
            for s, t in self.fork_f(st.copy(), op, a, fconst(0)):
                if t:
                    for s2, t2 in self.fork_f(s, op, b, fconst(0)):
                        if t2:
                            return True
        return False

    def attempt(self, S, vals, inv, chosen, pairs):
        self.tried.append((len(chosen), len(pairs)))
        R = {'back': [], 'exit': [], 'ret': []}
        S.gather, S.pend = True, {}
        for signs in itertools.product((1, -1), repeat=len(pairs)):
            S.finv = []
            bad = False
            for sg, (x, y) in zip(signs, pairs):
                S.finv.append((fscale(vals[x], sg).num, False))
                S.finv.append((fscale(vals[y], -sg).num, False))
            r, new = S.iterate(vals, inv)
            for leaf in r['back']:
                for q, p in chosen:
                    nq, np_ = S.next_of(q, leaf), S.next_of(p, leaf)
                    if not isinstance(nq, F) or nq.single() is None or nq.single().kind != 'fun' or nq.single().key[1][0] != ('F', np_.key()):
                        return None
                for x, y in pairs:
                    if self.same_sign(leaf[0], S.next_of(x, leaf), S.next_of(y, leaf)):
                        return None
            for k in R:
                R[k] += r[k]
        return R


def fscale(a, s):
    return a if s == 1 else fneg(a)


def mk(ctx, E):
    st = State()
    fo = E.new_obj(st, 'found', 4, 'param', init='undef')
    x1, x2, tol = fvar('x1', nan=False), fvar('x2', nan=False), fvar('tol', nan=False)
    st.facts.f_add(tol.num, True, -1)
    st.facts.null = dict(st.facts.null)
    st.facts.null['func'] = False
    return st, fo, x1, x2, tol, [Ptr(fo.id, iconst(64, 0)), x1, x2, Sym('func'), Sym('extra'), tol]


def fpoints(s, extra=()):
    """points at which the function value is known to the state"""
    out = {}

    def see(g):
        G = Gen.byid[g]
        if G.kind == 'fun' and G.key[0] == 'F':
            out[g] = alg.unkey(G.key[1][0][1])
    for t, _, _ in s.facts.fl:
        for m, _ in t:
            for g, _ in m:
                see(g)
    for k in s.facts.fne:
        for m, _ in k:
            for g, _ in m:
                see(g)
    for ev in s.events:
        if ev.name == 'F' and isinstance(ev.ret, F) and ev.ret.single():
            see(ev.ret.single().id)
    for l in s.loops.values():
        for r in l.get('rel') or ():
            q = l['values'].get(r[0]) if isinstance(r, tuple) and len(r) == 2 else None
            if isinstance(q, F) and q.single() is not None:
                see(q.single().id)
    return out


def root_ok(E, s, x, tol):
    """'yes' / 'no' with a state, for: x is a zero, or a sign change is bracketed within the tolerance"""
    fx = fun('F', x)
    fx.single().nan = False
    pts = fpoints(s)
    if fx.single().id not in pts:
        return 'not evaluated', s
    states = []
    for s1, z in E.fork_f(s.copy(), 'oeq', fx, fconst(0)):
        if not z:
            states.append(s1)
    for s1 in states:
        for s2, pos in E.fork_f(s1, 'ogt', fx, fconst(0)):
            for s3, xpos in E.fork_f(s2, 'oge', x, fconst(0)):
                ok = False
                bound = fadd(fmul(fconst(2), tol), fmul(fconst(Fr(1, 10 ** 6)), x if xpos else fneg(x)))
                for g, w in pts.items():
                    if g == fx.single().id:
                        continue
                    fw = fgen(Gen.byid[g])
                    d = fsub(w, x)
                    if (entails_le(s3.facts, fw, fconst(0)) if pos else entails_le(s3.facts, fconst(0), fw)) and \
                            entails_le(s3.facts, d, bound) and entails_le(s3.facts, fneg(d), bound):
                        ok = True
                        break
                if not ok:
                    return 'unbracketed', s3
    return 'yes', s


def p12(ctx, b, tier):
    ctx.need('brent')
    b.rule('root', 'a search that reports success returns a point at which the function was evaluated, where it is zero or next to (within the tolerance) an evaluated point of opposite sign')
    b.rule('same-sign', 'a bracket whose ends have the same strict sign is reported as "not found"')
    b.rule('no-miss', 'a bracket with a sign change is reported as "not found" only when the iteration limit is exhausted')
    b.rule('flag', 'the success flag is set on every return')
    b.rule('ends', 'the function is first evaluated at the two ends given')
    E = BrentEngine(ctx.m, models={'*func': m_F}, max_states=400000)
    st, fo, x1, x2, tol, args = mk(ctx, E)
    w = 'brent'
    proof = True
    try:
        res = E.call(st.copy(), 'brent', args)
    except Undecided as ex:
        proof = False
        b.und('root', w, 'no invariant: %s' % ex)
        res = []
    b.engine(E)
    if E.infer:
        b.cov['invariant'] = E.infer
    for s, v in res:
        pts = [x.args[0] for x in s.events if x.name == 'F'][:2]
        if len(pts) == 2 and {pts[0].key(), pts[1].key()} == {x1.key(), x2.key()}:
            b.ok('ends', w)
        else:
            b.und('ends', w, 'first evaluations at %r' % pts)
        outcome(b, E, s, v, fo, x1, x2, tol, w, False)
    # exact prefix: some partitions of the first iterations, for witnesses
    if not proof or b.count('undecided') or tier != 'quick':
        for vals, depth, breadth in STEPS if tier != 'quick' else STEPS[:4]:
            steps(ctx, b, vals, depth, breadth)
            if b.count('violation'):
                return
        prefix(ctx, b, tier)


# hypotheses on the function: it takes only these values (then every step of the search is linear in the ends)
STEPS = [((-1, 1), 7, 40), ((-1, 3), 5, 40), ((-1, 0, 2), 5, 40), ((-3, -1, 1, 4), 5, 30), ((-4, -1, 1, 3), 5, 60), ((-2, -1, 0, 1, 5), 5, 60)]


def m_steps(vals):
    def m(E, st, ins, a):
        old = [e.ret for e in st.events if e.name == 'F' and e.args[0].key() == a[0].key()]
        if old:
            return [(st, old[0])]
        out = []
        for c in vals:
            t = st.copy()
            r = fconst(c)
            t.events = t.events + (Event('F', list(a), r, ins),)
            out.append((t, r))
        return out
    return m


def steps(ctx, b, vals, depth, breadth):
    """the first iterations, exactly, for the functions that take only the given values and a bracket of positive numbers"""
    E = PrefixEngine(ctx.m, models={'*func': m_steps(vals)}, max_states=200000)
    E.opaque_nl = True
    E.depth_limit, E.breadth = depth, breadth
    st, fo, x1, x2, tol, args = mk(ctx, E)
    st.facts.f_add(x1.num, True, -1)
    st.facts.f_add(fsub(x1, x2).num, True)
    w = 'brent (functions with values in %s)' % (vals,)
    try:
        res = E.call(st, 'brent', args)
    except Undecided as ex:
        b.notes.append('steps %s: %s' % (vals, ex))
        return
    b.cov['step_partitions'] = b.cov.get('step_partitions', 0) + len(res)
    n = 0
    for s, v in res:
        fl = cell(s, fo, 0)
        c = fl.const() if isinstance(fl, I) else None
        ev = [(x.args[0], x.ret.isconst()) for x in s.events if x.name == 'F']
        if c is None or not s.exact or len(ev) < 2 or n > 6:
            continue
        ends = {x.key(): y for x, y in ev}
        f1, f2 = ends.get(x1.key()), ends.get(x2.key())
        if f1 is None or f2 is None:
            continue
        if not c:
            if f1 * f2 <= 0 and not exhausted(s) and sample(s.facts, (x1, x2, tol), n=1):
                b.bad('no-miss', w, 'a sign change is reported as not found; partition: %s' % part(s))
                n += 1
            continue
        if f1 * f2 > 0:
            if sample(s.facts, (x1, x2, tol), n=1):
                b.bad('same-sign', w, 'a root is reported although both ends have the same sign; partition: %s' % part(s))
                n += 1
            continue
        if not isinstance(v, F) or v.sp or ends.get(v.key()) == 0:
            continue
        fv = ends.get(v.key())
        for pt in sample(s.facts, (v, tol) + tuple(x for x, _ in ev), n=4):
            try:
                xv, tv = pt.F(v), pt.F(tol)
                at = [(pt.F(x), y) for x, y in ev]
            except (Bad, OverflowError, ZeroDivisionError):
                continue
            far = [abs(x - xv) > 1e-9 * (1 + abs(xv)) for x, _ in at]
            if any(abs(p[0] - q[0]) <= 1e-9 * (1 + abs(p[0])) and p[1] != q[1] for p in at for q in at):
                continue                       # not a function
            if fv is None:
                if all(far):
                    b.bad('root', w, 'the returned point %s was not evaluated: e.g. %s; partition: %s' % (short(v), show_point(pt), part(s)))
                    n += 1
                    break
                continue
            if not any(y * fv <= 0 and abs(x - xv) <= 1.05 * (2 * tv + 1e-6 * abs(xv)) for x, y in at):
                b.bad('root', w, 'the returned point %s has value %s and no evaluated point within the tolerance has the opposite sign: e.g. %s; partition: %s' % (
                    short(v), fv, show_point(pt), part(s)))
                n += 1
                break
    b.engine(E)


def exhausted(s):
    return any(l.get('count') is not None and l['count'].const() is not None for l in s.loops.values())


def only_signs(s, params):
    """the partition says something about function values only, nothing about where the points lie"""
    ok = {p.single().id for p in params}
    for t, _, _ in s.facts.fl:
        for m, _ in t:
            for g, _ in m:
                if g not in ok and Gen.byid[g].kind != 'fun':
                    return False
    return True


def outcome(b, E, s, v, fo, x1, x2, tol, w, refute):
    b.cov['partitions'] += 1
    fl = cell(s, fo, 0)
    c = fl.const() if isinstance(fl, I) else None
    if fl is None or fl is UNDEF:
        if s.exact:
            b.bad('flag', w, 'the success flag is not set; partition: %s' % part(s))
        return
    if c is None:
        if not refute:
            b.und('flag', w, 'flag %r' % fl)
        return
    b.ok('flag', w, str(c))
    f1, f2 = fun('F', x1), fun('F', x2)
    for f in (f1, f2):
        f.single().nan = False
    if c:
        how, s3 = root_ok(E, s, v, tol) if isinstance(v, F) and not v.sp else ('not evaluated', s)
        if how == 'yes':
            b.ok('root', w, 'found')
        elif s.exact and refute:
            wit = witness(s3, v, how, tol)
            if wit:
                b.bad('root', w, 'the returned point %s is %s: %s; partition: %s' % (short(v), how, wit, part(s3)))
            else:
                b.und('root', w, 'no witness for %s' % how)
        elif how == 'not evaluated' and isinstance(v, F) and v.isconst() is not None and exhausted(s):
            b.bad('root', w, 'after the last iteration the constant %s, at which the function is never evaluated, is returned as a root' % short(v))
        elif how == 'unbracketed' and exhausted(s) and s.exact and only_signs(s3, (x1, x2, tol)) and witness(s3, v, how, tol):
            b.bad('root', w, 'after the last iteration a point is returned as a root although nothing bounds its distance to a sign change (%s); partition: %s' % (
                witness(s3, v, how, tol), part(s3)))
        elif not refute:
            b.und('root', w, 'returned point %s: %s; facts %s' % (short(v), how, part(s3)))
        # same strict sign at both ends must not be found
        hit = None
        for op in ('ogt', 'olt'):
            for s2, t in E.fork_f(s.copy(), op, f1, fconst(0)):
                if t:
                    for s4, t2 in E.fork_f(s2, op, f2, fconst(0)):
                        if t2:
                            hit = s4
        if hit is None:
            b.ok('same-sign', w)
        elif s.exact and refute and (sample(hit.facts, (v,), n=1) or sample(hit.facts, (v,), n=1, fscale=1e-200)):
            b.bad('same-sign', w, 'a root is reported although both ends have the same sign; partition: %s' % part(hit))
        elif not refute:
            b.und('same-sign', w, 'found with equal signs? %s' % part(hit))
    else:
        # not found: same sign at the ends, or the iterations are exhausted
        cnt = [l['count'] for l in s.loops.values() if l.get('count') is not None]
        ks = [k.const() for k in cnt]
        if any(k is not None and k >= 50 for k in ks):
            b.ok('no-miss', w, 'iterations exhausted (%s)' % ks)
            return
        hit = None
        for s1, t1 in E.fork_f(s.copy(), 'ogt', f1, fconst(0)):
            for s2, t2 in E.fork_f(s1, 'ogt', f2, fconst(0)):
                if t1 and t2:
                    continue
                for s3, u1 in E.fork_f(s2, 'olt', f1, fconst(0)):
                    for s4, u2 in E.fork_f(s3, 'olt', f2, fconst(0)):
                        if not (u1 and u2):
                            hit = s4
        if hit is None:
            b.ok('no-miss', w, 'same sign')
        elif any(k is not None and k < 50 for k in ks) and s.exact:
            b.bad('no-miss', w, 'the search gives up after %s iterations; partition: %s' % (ks, part(hit)))
        elif s.exact and not s.loops and sample(hit.facts, (f1, f2), n=1):
            b.bad('no-miss', w, 'a sign change is reported as not found; partition: %s' % part(hit))
        elif not refute:
            b.und('no-miss', w, part(hit))


def witness(s, x, how, tol):
    """a point of the partition at which no evaluated point certifies x"""
    pts = fpoints(s)
    if how == 'not evaluated':
        vs = sample(s.facts, (x,), n=3)
        for v in vs:
            xv = v.F(x)
            if all(abs(v.F(w) - xv) > 1e-12 for w in pts.values()):
                return 'e.g. %s' % show_point(v)
        return None
    fx = fun('F', x)
    ex = (x, tol, fx) + tuple(fgen(Gen.byid[g]) for g in pts)
    for v in sample(s.facts, ex, n=6) or sample(s.facts, ex, n=6, fscale=1e-200):
        try:
            xv, fv, tv = v.F(x), v.F(fx), v.F(tol)
            if fv == 0 or fv != fv:
                continue
            good = False
            for g, w in pts.items():
                wv, fw = v.F(w), v.gen(g)
                if (fw <= 0 <= fv or fv <= 0 <= fw) and abs(wv - xv) <= 1.01 * (2 * tv + 1e-6 * abs(xv)) and g != fx.single().id:
                    good = True
            if not good:
                return 'f=%.4g there and no evaluated point within the tolerance has the opposite sign (%s)' % (fv, show_point(v))
        except (Bad, OverflowError, ZeroDivisionError):
            continue
    return None


class PrefixEngine(Engine):
    """exact analysis of the first iterations of the search loop only"""
    depth_limit = 3
    breadth = 10

    def do_loop(self, st, env, L, prev, fn):
        calls = any(i.op == 'call' and not (isinstance(i.callee, Const) and i.callee.v.startswith('llvm.'))
                    for b in fn.blocks if b.idx in L.blocks for i in b.insts)
        if not calls:
            return loops.do_loop(self, st, env, L, prev, fn)
        out = []
        live = [(st.copy(), env, prev)]
        rnd = random.Random(7)
        for it in range(self.depth_limit):
            nxt = []
            for s, e, p in live:
                n0 = self.nstates

                def pick(work, o):
                    if self.nstates - n0 > 2000 or len(o["back"]) > 60:
                        return None
                    return rnd.randrange(len(work))
                self.pick = pick
                try:
                    r = loops.region_from_header(self, s, e, L, p, fn)
                finally:
                    self.pick = None
                out += [('exit', x) for x in r['exit']]
                out += [('ret', x) for x in r['ret']]
                nxt += r['back']
            # a few partitions that have a concrete point
            # one for each way the variables of the loop refer to the evaluated points, as far as possible
            groups = {}
            rnd.shuffle(nxt)
            for x in nxt:
                groups.setdefault(self.signature(x, L), []).append(x)
            pick = []
            for depth in range(12):
                for g in sorted(groups):
                    if len(groups[g]) > depth and len(pick) < self.breadth and not (depth and any(y[0] == g for y in pick) and len(groups) >= self.breadth):
                        x = groups[g][depth]
                        if sample(x[0].facts, (), n=1, tries=15):
                            pick.append((g, x))
            live = [x for _, x in pick]
        return out


    def signature(self, leaf, L):
        s, e, p = leaf
        pts = [x for x in s.events if x.name == 'F']
        idx = {}
        for i, x in enumerate(pts):
            idx.setdefault(x.args[0].key(), 'x%d' % i)
            if isinstance(x.ret, F):
                idx.setdefault(x.ret.key(), 'f%d' % i)
        out = []
        for ph in L.header.insts:
            if ph.op != 'phi':
                break
            for v, q in ph.incoming:
                if q is p:
                    val = self.operand(s, e, v)
                    if isinstance(val, F):
                        out.append(idx.get(val.key(), '-') if not val.sp else val.sp)
        return tuple(out)


def prefix(ctx, b, tier):
    E = PrefixEngine(ctx.m, models={'*func': m_F}, max_states=120000)
    E.opaque_nl = True
    E.breadth = 14 if tier == 'quick' else 40
    st, fo, x1, x2, tol, args = mk(ctx, E)
    try:
        res = E.call(st.copy(), 'brent', args)
    except Undecided as ex:
        b.notes.append('prefix: %s' % ex)
        return
    b.cov['prefix_partitions'] = len(res)
    for s, v in res:
        ev = [x for x in s.events if x.name == 'F']
        pts = [x.args[0] for x in ev]
        if len(pts) >= 2:
            if {pts[0].key(), pts[1].key()} == {x1.key(), x2.key()}:
                b.ok('ends', 'brent')
            else:
                b.und('ends', 'brent', 'first evaluations at %r' % pts[:2])
        outcome(b, E, s, v, fo, x1, x2, tol, 'brent (first iterations)', True)
    b.engine(E)
