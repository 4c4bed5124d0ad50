"""Pre-states, boundaries and the obligation book-keeping shared by the checks."""
import os
import time
from . import build, ir, alg, valuation
from .alg import *
from .engine import *
from .engine import Engine, State, Event, where, on_open
from .subst import fun, mksum, mkred, J, Subst
from .valuation import decide_eq, sample, Val, close, show_point, Bad
from .loops import entails_le, entails_lt

_mod = {}


class Ctx:
    """everything the checks ask about the current tree"""

    def __init__(self, target=None, passes=None):
        self.path = build.core_ir(target, tag='core' + (target or ''), **({'passes': passes} if passes else {}))
        self.m = ir.Module(self.path)
        self.lay = build.layout(target)
        self.en = build.enums()

    def off(self, s, f):
        return self.lay[s][f]

    def fn(self, name):
        f = self.m.functions.get(name)
        return f is not None and not f.decl

    def need(self, *names):
        for n in names:
            if not self.fn(n):
                raise Missing('function %s not found in src/' % n)


class Missing(Exception):
    pass


class Book:
    """obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.cov = {'functions': set(), 'partitions': 0, 'states': 0, 'loops': {}}
        self.notes = []
        self.rules = []

    def rule(self, rid, text):
        if rid not in [r for r, _ in self.rules]:
            self.rules.append((rid, text))

    def add(self, rid, status, where_, detail='', key=None):
        self.items.append({'rule': rid, 'status': status, 'where': where_, 'detail': detail, 'key': key or rid})

    def ok(self, rid, where_, detail=''):
        self.add(rid, 'ok', where_, detail)

    def bad(self, rid, where_, detail='', key=None):
        if key is None and Engine.deadline is not None:
            # a violation is known: the rest is worth a little more time only
            Engine.deadline = min(Engine.deadline, time.time() + 90)
            valuation.LATE[0] = Engine.deadline
        self.add(rid, 'violation', where_, detail, key)

    def und(self, rid, where_, detail=''):
        self.add(rid, 'undecided', where_, detail)

    def eq(self, rid, st, got, want, where_, what, bind=(), dom=()):
        if got is None:
            self.und(rid, where_, '%s: value not tracked' % what)
            return False
        if got is UNDEF or (isinstance(got, F) and got.sp == 'undef'):
            self.bad(rid, where_, '%s is left undefined; expected %r; partition: %s' % (what, want, part(st)))
            return False
        r, how = decide_eq(st.facts, got, want, bind=bind, dom=dom)
        if r == 'yes':
            self.ok(rid, where_, '%s: %s' % (what, how))
            return True
        if r == 'no' and st.exact and not on_open(st, got):
            self.bad(rid, where_, '%s is %s, expected %s (%s); partition: %s' % (what, short(got), short(want), how, part(st)))
        else:
            self.und(rid, where_, '%s is %s, expected %s (%s)' % (what, short(got), short(want), how))
        return False

    def engine(self, E):
        self.cov['functions'] |= E.functions
        self.cov['states'] += E.nstates
        for f, l, k in E.loop_log:
            self.cov['loops']['%s:%s' % (f, l)] = k

    def count(self, s):
        return sum(1 for i in self.items if i['status'] == s)


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def part(st):
    return '; '.join(st.facts.describe()[:12]) or 'any'


# ------------------------------------------------------------------ models of the mathematical kernel

def m_log(E, st, ins, a):
    return [(st, log_of(a[0]))]


def m_exp(E, st, ins, a):
    return [(st, exp_of(a[0]))]


MATH = {'xlog': m_log, 'xexp': m_exp}


def m_malloc(E, st, ins, a):
    """allocation hook: succeeds with fresh storage or fails"""
    out = []
    s1 = st.copy()
    o = E.new_obj(s1, 'block', a[0] if a[0].w == 64 else I(64, a[0].c, a[0].t), 'heap', init='undef', elem=(8, 'double'))
    s1.events = s1.events + (Event('malloc', list(a), Ptr(o.id, iconst(64, 0)), ins),)
    out.append((s1, Ptr(o.id, iconst(64, 0))))
    s2 = st.copy()
    s2.events = s2.events + (Event('malloc', list(a), NULL, ins),)
    out.append((s2, NULL))
    return out


def m_free(E, st, ins, a):
    p = a[0]
    st.events = st.events + (Event('free', list(a), None, ins),)
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.wobj(p.obj)
        E.oblige(ins, 'double-free', not o.freed, st, 'storage %s released twice' % o.name)
        E.oblige(ins, 'free-base', p.off.const() == 0 and o.kind == 'heap', st, 'release of %r, which is not a block start' % p)
        o.freed = True
    elif isinstance(p, Null):
        pass
    elif p is UNDEF:
        E.oblige(ins, 'free-base', False, st, 'release of an undefined pointer')
    return [(st, None)]


HOOKS = {'*malloc_hook': m_malloc, '*free_hook': m_free}


def set_hooks(E, st, m=None, f=None):
    """the allocator hooks have been registered through set_allocators"""
    F = E.m.functions.get('set_allocators')
    if F is None or F.decl:
        raise Missing('function set_allocators not found in src/')
    st.facts.null = dict(st.facts.null)
    if m is None:
        st.facts.null['malloc_hook'] = False
        st.facts.null['free_hook'] = False
        m, f = Sym('malloc_hook'), Sym('free_hook')
    r = E.call(st.copy(), 'set_allocators', [m, f])
    if len(r) != 1:
        raise Undecided('set_allocators: %d outcomes' % len(r))
    s = r[0][0]
    for oid, o in s.mem.items():
        if isinstance(oid, str) and oid.startswith('@') and oid not in st.mem:
            st.add_obj(o.copy())
        elif isinstance(oid, str) and oid.startswith('@'):
            st.wobj(oid).cells.update(o.cells)


def model_alloc(models):
    """xmalloc/xfree as seen through the hooks"""
    models = dict(models)
    models.update(HOOKS)
    return models


# ------------------------------------------------------------------ abstract objects

class Env:
    pass


UNSPEC = object()


def mk_container(ctx, E, st, regime, name='excesses'):
    """ring buffer state. regime: 'part' (cursor < capacity, not filled) or 'full'"""
    e = Env()
    e.cap = iatom(64, fresh_atom('capacity', 1, (1 << 60)))
    e.cur = iatom(64, fresh_atom('cursor', 0, (1 << 60)))
    d = {next(iter(e.cur.t)): 1, next(iter(e.cap.t)): -1}
    st.facts.i_add_le(d, 1)
    e.full = regime == 'full'
    e.data = E.new_obj(st, name, iscale(e.cap, 8), 'heap', init='lazy', elem=(8, 'double'))
    e.data.nonan = True
    e.size = e.cap if e.full else e.cur
    e.regime = regime
    return e


def fill_container(ctx, o, base, e, last=None):
    U = ctx.lay['Ubend']
    o.cells[base + U['cursor']] = e.cur
    o.cells[base + U['capacity']] = e.cap
    o.cells[base + U['filled']] = iconst(32, 1 if e.full else 0)
    o.cells[base + U['data']] = Ptr(e.data.id, iconst(64, 0))
    e.last = fvar('last_erased') if e.full else NAN
    if last is not None:
        e.last = last
    o.cells[base + U['last_erased_data']] = e.last


def elem_of(obj, off, writes=()):
    """value number of data[off] in object obj (with the given writes)"""
    ver = (obj.id, tuple((w.key(), v.key()) for w, v in writes))
    from .subst import mkelem

    class L:
        name = obj.name + '['
    g = mkelem(obj.id, ver[1], off.key(), L)
    if getattr(obj, 'nonan', False):
        g.nan = False
    return fgen(g)


def stats_of(obj, size, writes=()):
    """(sum, sum of squares, min, max) of the first `size` elements"""
    b = elem_of(obj, iscale(iatom(64, J), 8), writes)
    return mksum(b, size), mksum(fmul(b, b), size), mkred('min', b, size, []), mkred('max', b, size, [])


def mk_peaks(ctx, E, st, regime, o=None, base=0, size0=False):
    if o is None:
        o = E.new_obj(st, 'peaks', ctx.lay['Peaks']['#size'], 'param', init='lazy')
    e = mk_container(ctx, E, st, regime)
    fill_container(ctx, o, base + ctx.lay['Peaks']['container'], e)
    P = ctx.lay['Peaks']
    e.e = fvar('S1', nan=False)
    e.e2 = fvar('S2', nan=False)
    e.mn = fvar('min', nan=False)
    e.mx = fvar('max', nan=False)
    s = stats_of(e.data, e.size)
    e.bind = [(e.e.single().id, s[0]), (e.e2.single().id, s[1]), (e.mn.single().id, s[2]), (e.mx.single().id, s[3])]
    st.facts.f_add(fsub(e.mn, e.mx).num, False, 1)
    o.cells[base + P['e']] = e.e
    o.cells[base + P['e2']] = e.e2
    o.cells[base + P['min']] = e.mn
    o.cells[base + P['max']] = e.mx
    e.peaks = o
    e.pbase = base
    return e


def mk_spot(ctx, E, st, low, disc, regime, thresholds=True):
    S = ctx.lay['Spot']
    o = E.new_obj(st, 'spot', S['#size'], 'param', init='lazy')
    pb = S['tail'] + ctx.lay['Tail']['peaks']
    e = mk_peaks(ctx, E, st, regime, o, pb)
    e.spot = o
    e.q = fvar('q', nan=False)
    e.level = fvar('level', nan=False)
    f = st.facts
    f.f_add(e.q.num, True, -1)
    f.f_add(e.level.num, False, -1)
    f.f_add(fsub(fadd(e.level, e.q), fconst(1)).num, True, 1)
    e.ud = fconst(-1 if low else 1)
    e.low, e.disc = low, disc
    e.at = fvar('anomaly_threshold', nan=False)
    e.et = fvar('excess_threshold', nan=False)
    e.gamma = fvar('gamma', nan=False)
    e.sigma = fvar('sigma', nan=False)
    f.f_add(e.sigma.num, True, -1)
    # n stays below 2^62: the stream would have to run for centuries
    e.n = iatom(64, fresh_atom('n', 0, (1 << 62)))
    e.Nt = iatom(64, fresh_atom('Nt', 0, (1 << 62)))
    f.i_add_le({next(iter(e.Nt.t)): 1, next(iter(e.n.t)): -1}, 0)
    c = o.cells
    c[S['q']], c[S['level']] = e.q, e.level
    c[S['low']] = iconst(32, 1 if low else 0)
    c[S['discard_anomalies']] = iconst(32, 1 if disc else 0)
    c[S['__up_down']] = e.ud
    c[S['anomaly_threshold']], c[S['excess_threshold']] = e.at, e.et
    c[S['n']], c[S['Nt']] = e.n, e.Nt
    T = S['tail']
    c[T + ctx.lay['Tail']['gamma']], c[T + ctx.lay['Tail']['sigma']] = e.gamma, e.sigma
    e.tbase = T
    e.p = Ptr(o.id, iconst(64, 0))
    return e


def cell(st, o, off):
    return st.mem[o.id].cells.get(off)


def real(i):
    c = i.const()
    if c is not None:
        return fconst(i.sconst())
    t, c = i.lin()
    return fgen(gen('uitof', (64, c % (1 << 64), tuple(sorted(t.items()))), 'real(%r)' % I(64, c, t), nonneg=True, nan=False))


# ------------------------------------------------------------------ boundaries

def b_estimator(kind):
    def h(E, st, ins, a):
        k = sum(1 for ev in st.events if getattr(ev, 'name', '').startswith('estimate'))
        ll = fvar('llhood_%s' % kind)
        g = fvar('gamma_%s' % kind, nan=False)
        s = fvar('sigma_%s' % kind, nan=False)
        for p, v in ((a[1], g), (a[2], s)):
            E.store(st, ins, p, v, 8)
        snap = None
        if isinstance(a[0], Ptr) and a[0].obj in st.mem:
            snap = st.mem[a[0].obj].copy()
        st.events = st.events + (Event('estimate', [kind] + list(a), ll, ins, info={'gamma': g, 'sigma': s, 'snap': snap}),)
        return [(st, ll)]
    return h


def b_push(ctx):
    """peaks_push: the container and its statistics take unspecified new values"""
    P = ctx.lay['Peaks']

    def h(E, st, ins, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.off.const() is None:
            raise Undecided('push into %r' % p)
        n = sum(1 for ev in st.events if getattr(ev, 'name', '') == 'push')
        o = st.wobj(p.obj)
        b = p.off.c
        alg._fresh[0] += 1
        snap = {k: v for k, v in o.cells.items()}
        for k in [k for k in o.cells if b <= k < b + P['#size']]:
            v = o.cells[k]
            if isinstance(v, F):
                o.cells[k] = fvar('peaks+%d%s' % (k - b, "'" * (n + 1)), nan=False if k - b < P['container'] else None)
            elif isinstance(v, I):
                o.cells[k] = iatom(v.w, fresh_atom("peaks+%d%s" % (k - b, "'" * (n + 1)), 0, (1 << v.w) - 1))
        st.events = st.events + (Event('push', list(a), None, ins, info={'pre': snap}),)
        st.wlog = st.wlog + tuple((p.obj, k, ins, o.cells[k]) for k in o.cells if b <= k < b + P['#size'])
        return [(st, None)]
    return h


def estimator_models(ctx):
    """boundary for every estimator reached through the table of tail_fit"""
    return {'mom_estimator': b_estimator('moments'), 'grimshaw_estimator': b_estimator('grimshaw')}


# ------------------------------------------------------------------ specification formulas

def tail_q(ud, et, s, q, gamma, sigma, zero):
    """generalised Pareto quantile at probability q, exceedance ratio s"""
    r = fdiv(q, s)
    if zero:
        y = fneg(fmul(sigma, log_of(r)))
    else:
        y = fmul(fdiv(sigma, gamma), fsub(exp_of(fneg(fmul(gamma, log_of(r)))), fconst(1)))
    return fadd(et, fmul(ud, y))


def tail_p(s, d, gamma, sigma, zero):
    if zero:
        return fmul(s, exp_of(fneg(fdiv(d, sigma))))
    return fmul(s, exp_of(fmul(fneg(fdiv(fconst(1), gamma)), log_of(fadd(fconst(1), fdiv(fmul(gamma, d), sigma))))))


def run(E, st, fname, args):
    """analyse; budget problems become Undecided"""
    return E.call(st, fname, args)
