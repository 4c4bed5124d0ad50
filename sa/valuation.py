"""Valuations of abstract values: evaluates value numbers at sample points that satisfy the facts of a partition.

Used (a) as an identity test between two value numbers that are not syntactically equal (polynomial identity
testing on the analyser's own expressions), and (b) to give a definite witness when a partition contradicts a rule.
Nothing of /repo is executed here: only expressions extracted by the analysis are evaluated.
"""
import hashlib
import os
import math
import random
import time
from fractions import Fraction as Fr
from .alg import *
from . import alg
from .subst import J


class Bad(Exception):
    pass


def _h(*a):
    d = hashlib.sha256(repr(a).encode()).digest()
    return int.from_bytes(d[:7], 'big') / float(1 << 56)


class Val:
    def __init__(self, seed=0):
        self.rnd = random.Random(seed)
        self.g = {}         # gen id -> float
        self.a = {}         # atom id -> int
        self.arr = {}       # (oid, index bytes) -> float / int
        self.seed = seed
        self.j = []
        self.nanset = set()
        self.fv = {}        # (function name, argument values) -> value
        self.memo = {}
        self.scale = self.rnd.choice([1, 1, 2, 4])

    def rf(self):
        r = self.rnd
        k = r.random()
        if k < .5:
            return r.randint(-6, 6) / 2.0
        return r.uniform(-3, 3) * self.scale

    # ---- floats
    def F(self, f):
        if f.sp:
            return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}.get(f.sp, math.nan)
        n = self.poly(f.num)
        if f.den == P1:
            return n
        d = self.poly(f.den)
        return self.div(n, d)

    def mag(self, f):
        """magnitude of the terms an expression is summed from (what cancellation error scales with)"""
        if f.sp:
            return 0.0
        n = 0.0
        for m, c in f.num.items():
            n += abs(self.poly({m: c}))
        if f.den == P1:
            return n
        d = abs(self.poly(f.den))
        dm = sum(abs(self.poly({m: c})) for m, c in f.den.items())
        if d == 0 or dm == 0:
            return math.inf
        return n / d * max(1.0, dm / d * 1e-3)

    @staticmethod
    def div(n, d):
        if d == 0:
            if n == 0 or n != n:
                return math.nan
            return math.copysign(math.inf, n)
        return n / d

    def poly(self, p):
        r = 0.0
        for m, c in p.items():
            t = float(c)
            for g, e in m:
                v = self.gen(g)
                try:
                    if e >= 0:
                        t *= v ** e
                    else:
                        t = self.div(t, v ** -e)
                except OverflowError:
                    raise Bad()
            r += t
        return r

    def gen(self, g):
        G = Gen.byid[g]
        k = G.kind
        if k in ('exp', 'log', 'logc', 'cases', 'sum', 'min', 'max', 'elem', 'uitof', 'sitof', 'uitofw', 'fun') or k.startswith('op:'):
            key = (g, tuple(self.j))
            if key in self.memo:
                return self.memo[key]
            v = self.comp(G)
            self.memo[key] = v
            return v
        v = self.g.get(g)
        if v is None:
            v = self.rf()
            if G.nonneg:
                v = abs(v)
            if g in self.nanset:
                v = math.nan
            self.g[g] = v
        return v

    def comp(self, G):
        k = G.kind
        if k == 'exp':
            try:
                return math.exp(self.F(alg.unkey(G.key)))
            except OverflowError:
                raise Bad()
        if k == 'log':
            v = self.F(alg.unkey(G.key))
            if v != v or v < 0:
                # the value is not defined here: log of a negative number is NaN
                return math.nan
            if v == 0:
                return -math.inf
            return math.log(v) if v != math.inf else v
        if k == 'logc':
            return math.log(G.key)
        if k in ('uitof', 'sitof', 'uitofw'):
            return float(self.I(I(G.key[0], G.key[1], dict(G.key[2])), k == 'sitof'))
        if k == 'elem':
            (oid, ver), off = G.key
            return self.elem(oid, ver, off, True, G.id)
        if k == 'cases':
            for gs, v in G.key:
                if all(self.guard(x) for x in gs):
                    return self.F(alg.unkey(v))
            raise Bad()
        if k == 'sum':
            body, K = G.key
            n = self.Ik(K)
            if n > 200:
                raise Bad()
            b = alg.unkey(body)
            t = 0.0
            for x in range(n):
                self.j.append(x)
                t += self.F(b)
                self.j.pop()
            return t
        if k in ('min', 'max'):
            body, K, ext = G.key
            n = self.Ik(K)
            if n > 200:
                raise Bad()
            b = alg.unkey(body)
            vs = []
            for x in range(n):
                self.j.append(x)
                vs.append(self.F(b))
                self.j.pop()
            vs += [self.F(alg.unkey(e)) for e in ext]
            vs = [v for v in vs if v == v]
            if not vs:
                return math.nan
            return min(vs) if k == 'min' else max(vs)
        if k == 'fun':
            name, args = G.key
            vs = []
            for a in args:
                if a[0] == 'F':
                    v = self.F(alg.unkey(a[1]))
                    vs.append('%.14g' % v)
                elif a[0] == 'I':
                    vs.append(self.Ik(a[1]))
                else:
                    vs.append(repr(a[1]))
            fk = (name, tuple(vs))
            if fk in self.fv:
                return self.fv[fk]
            return (_h(self.seed, name, vs) - .5) * 6 * self.scale
        if k in ('op:fmul', 'op:fdiv'):
            x, y = self.F(alg.unkey(G.key[0])), self.F(alg.unkey(G.key[1]))
            return x * y if k == 'op:fmul' else self.div(x, y)
        vs = []
        for a in G.key:
            if isinstance(a, tuple) and len(a) == 2:
                vs.append('%.9g' % self.F(alg.unkey(a)))
            else:
                vs.append(repr(a))
        return (_h(self.seed, k, vs) - .5) * 6

    def guard(self, x):
        if x[0] == 'f':
            v = self.F(alg.unkey(x[1]))
            return v < 0 or (v == 0 and not x[2])
        if x[0] == 'ne':
            return self.F(alg.unkey(x[1])) != 0
        v = self.icon(x[1], x[2])
        return v <= 0 if x[0] == 'i' else v != 0

    def elem(self, oid, ver, off, flt, gid):
        o = self.Ik(off)
        for w, v in reversed(ver):
            if isinstance(w, tuple) and len(w) == 3 and isinstance(w[0], int):
                if self.Ik(w) == o:
                    return self.vk(v)
            else:
                raise Bad()
        key = (oid, o)
        if key not in self.arr:
            x = self.rf() if flt else self.rnd.randint(0, 5)
            if flt and gid in self.nanset:
                x = math.nan
            self.arr[key] = x
        return self.arr[key]

    def vk(self, v):
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], int):
            return self.Ik(v)
        if isinstance(v, tuple) and len(v) == 2:
            return self.F(alg.unkey(v))
        raise Bad()

    # ---- ints
    def Ik(self, key):
        return self.I(I(key[0], key[1], dict(key[2])))

    def I(self, i, signed=False):
        c = i.c
        for a, k in i.t.items():
            c += k * self.atom(a)
        c %= 1 << i.w
        if signed and c >= 1 << (i.w - 1):
            c -= 1 << i.w
        return c

    def atom(self, a):
        A = Atom.byid[a]
        if a == J.id:
            if not self.j:
                raise Bad()
            return self.j[-1]
        if A.kind == 'elem':
            (oid, ver), off = A.key
            return self.elem(oid, ver, off, False, None)
        if A.kind == 'iop':
            op, x, y = A.key
            w = x[0]
            u, v = self.Ik(x), self.Ik(y)
            if op in ('udiv', 'urem'):
                if v == 0:
                    raise Bad()
                return u // v if op == 'udiv' else u % v
            if op == 'and':
                return u & v
            if op == 'or':
                return u | v
            if op == 'xor':
                return u ^ v
            if op == 'lshr':
                return u >> v
            if op == 'mul':
                return (u * v) % (1 << w)
            raise Bad()
        v = self.a.get(a)
        if v is None:
            lo = max(A.lo if A.lo is not None else 0, -8)
            hi = min(A.hi if A.hi is not None else 8, lo + 5)
            if A.lo is not None and A.lo > hi:
                lo, hi = A.lo, A.lo
            v = self.rnd.randint(lo, max(lo, hi))
            self.a[a] = v
        return v

    # ---- facts
    def icon(self, t, c):
        for a, k in t:
            c += k * self.atom(a)
        return c

    def fcon(self, t, c):
        p = dict(t)
        if c:
            p[ONE] = c
        return self.poly(p)

    def settable_atom(self, a):
        return Atom.byid[a].kind not in ('elem', 'iop') and a != J.id

    def set_gen(self, g, v):
        """assign a value to a generator; False when it is not free"""
        G = Gen.byid[g]
        if G.kind == 'elem':
            (oid, ver), off = G.key
            try:
                o = self.Ik(off)
            except Bad:
                return False
            for w, x in ver:
                if isinstance(w, tuple) and len(w) == 3 and isinstance(w[0], int) and self.Ik(w) == o:
                    return False
            self.arr[(oid, o)] = v
            return True
        if G.kind == 'fun' and all(a[0] == 'F' for a in G.key[1]):
            self.fv[(G.key[0], tuple('%.14g' % self.F(alg.unkey(a[1])) for a in G.key[1]))] = v
            return True
        if G.kind in ('exp', 'log', 'logc', 'cases', 'sum', 'min', 'max', 'uitof', 'sitof', 'uitofw', 'fun') or G.kind.startswith('op:'):
            return False
        if G.nonneg and v < 0:
            return False
        self.g[g] = v
        return True

    def violated(self, facts):
        for con in facts.il:
            if self.icon(con[0], con[1]) > 0:
                return ('i', con)
        for con in facts.ine:
            if self.icon(con[0], con[1]) == 0:
                return ('ine', con)
        for con in facts.fl:
            v = self.fcon(con[0], con[1])
            if v != v:
                return ('f', con)
            if v > 1e-12 or (con[2] and v >= 0) or (not con[2] and v > 1e-12):
                return ('f', con)
        for k in facts.fne:
            if self.poly(dict(k)) == 0:
                return ('fne', k)
        return None

    def repair(self, v, facts):
        kind, con = v
        r = self.rnd
        self.memo.clear()
        if kind in ('i', 'ine'):
            t, c = con[0], con[1]
            cand = [(a, k) for a, k in t if self.settable_atom(a)]
            if not cand:
                return False
            a, k = r.choice(cand)
            cur = self.icon(t, c)
            A = Atom.byid[a]
            if kind == 'ine':
                n = self.a.get(a, self.atom(a)) + r.choice([-1, 1, 2])
            else:
                rest = cur - k * self.atom(a)
                slack = r.choice([0, 0, 1, 2])
                if k > 0:
                    n = (-rest) // k - slack
                else:
                    n = -((-rest) // (-k)) if False else -(-rest // -k)
                    n = math.ceil(rest / -k) + slack
            if (A.lo is not None and n < A.lo) or (A.hi is not None and n > A.hi):
                return False
            self.a[a] = n
            return True
        t, c = (con[0], con[1]) if kind == 'f' else (tuple((m, k) for m, k in con if m), dict(con).get(ONE, 0))
        p = dict(t)
        cand = []
        for m, k in t:
            if len(m) == 1 and m[0][1] == 1:
                cand.append((m, k))
        if not cand:
            gs = {g for m, _ in t for g, _ in m}
            g = r.choice(sorted(gs))
            return self.set_gen(g, self.rf())
        m, k = r.choice(cand)
        g = m[0][0]
        cur = self.fcon(t, c)
        old = self.gen(g)
        if cur != cur or old != old:
            return self.set_gen(g, self.rf())
        rest = cur - float(k) * old
        slack = r.choice([0, .5, 1, r.uniform(.1, 2)])
        if rest and r.random() < .5:
            slack = abs(rest) * r.uniform(.1, .9)      # stay at the scale of the constraint
        if kind == 'f' and not con[2] and r.random() < .35:
            slack = 0
        if kind == 'f' and con[2] and slack == 0:
            slack = .25
        if kind == 'fne':
            slack = 1
        elif kind == 'f' and r.random() < .6:
            # bounded from the other side too: stay inside the strip
            neg = {m_: -k_ for m_, k_ in t}
            wd = [float(-c - o[1]) for o in facts.fl if len(o[0]) == len(neg) and dict(o[0]) == neg]
            if wd and 0 < min(wd) < .5:
                slack = min(wd) * r.uniform(.1, .9)
        n = (-rest - slack) / float(k)
        return self.set_gen(g, n)


def touch(val, exprs):
    for e in exprs:
        if isinstance(e, F):
            val.F(e)
        elif isinstance(e, I):
            val.I(e)


def wrapping(*fs):
    """atoms read through an integer type that may be too narrow for them"""
    from .loops import alldeps
    out = set()
    for f in fs:
        if isinstance(f, F) and not f.sp:
            for g in alldeps(f):
                G = Gen.byid[g]
                if G.kind in ('sitof', 'uitofw'):
                    out |= {a for a, _ in G.key[2] if (Atom.byid[a].hi or 0) >= 1 << (G.key[0] - 1)}
    return out


LATE = [None]      # time after which no further comparison is attempted


def sample(facts, exprs=(), n=8, tries=120, seed=1, bind=(), nanops=True, big=(), fscale=None):
    """valuations satisfying the facts. bind: [(gen id or F generator, F expression)] definitional equalities"""
    out = []
    if LATE[0] is not None and time.time() > LATE[0]:
        from .engine import Undecided
        raise Undecided('time limit of the analysis')
    for t in range(tries):
        v = Val(seed * 7919 + t)
        v.nanset = {g for g, b in facts.nan.items() if b}
        if fscale:
            v.scale = fscale
        for x in big:
            if v.rnd.random() < .8:
                v.a[x] = min(v.rnd.choice([1 << 31, 1 << 32, 3 << 31]) + v.rnd.randint(0, 1 << 20), Atom.byid[x].hi)
        ok = False
        try:
            for rep in range(60):
                v.memo.clear()
                for g, e in bind:
                    v.g[g] = v.F(e)
                    v.memo.clear()
                bad = v.violated(facts)
                if bad is None:
                    touch(v, exprs)
                    ok = not nanops or all((v.gen(g) != v.gen(g)) == b for g, b in facts.nan.items()
                             if Gen.byid[g].kind in ('op:fmul', 'op:fdiv'))
                    break
                if not v.repair(bad, facts) and v.rnd.random() < .2:
                    break
        except (Bad, OverflowError, ZeroDivisionError, ValueError):
            ok = False
        if ok:
            out.append(v)
            if len(out) >= n:
                break
    return out


SEED = int(os.environ.get('VERIF_SEED') or 1) % 10007


def close(a, b, tol=1e-7, scale=1.0):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


def equalities(facts):
    """substitutions g -> value implied by pairs of opposite non-strict facts"""
    sub = {}
    cons = {(t, c) for t, c, s in facts.fl if not s}
    for t, c in cons:
        n = (tuple((m, -k) for m, k in t), -c)
        if n not in cons:
            continue
        for m, k in t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] not in sub and \
                    not any(m[0][0] == g for mm, _ in t if mm != m for g, _ in mm):
                rest = {mm: -kk / k for mm, kk in t if mm != m}
                if c:
                    rest[ONE] = -c / k
                sub[m[0][0]] = F(rest, P1)
                break
    return sub


def cases_in(f):
    from .loops import alldeps
    return {g for g in alldeps(f) if Gen.byid[g].kind == 'cases'} if isinstance(f, F) and not f.sp else set()


def generic_differ(a, b, seed):
    """the two functions differ at most generic points"""
    diff = same = 0
    for t in range(24):
        v = Val(seed * 15485863 + t)
        try:
            x, y = v.F(a), v.F(b)
            sc = 1e-3 * max(v.mag(a), v.mag(b))
        except (Bad, OverflowError, ZeroDivisionError, ValueError):
            continue
        if x != x and y != y:
            continue
        if close(x, y, scale=sc):
            same += 1
        else:
            diff += 1
    return diff >= 4


def decide_cases(facts, a, b, dom, seed):
    """sums whose terms are chosen by guards: compare the terms under each guard"""
    from .subst import Subst
    from .alg import fresh_atom, iatom, iconst
    ids = sorted(cases_in(a) | cases_in(b))
    if len(ids) != 1:
        return ('unknown', 'several guarded sums')
    G = Gen.byid[ids[0]]
    K = None
    for f in (a, b):
        for g in f.gens():
            S = Gen.byid[g]
            if S.kind == 'sum' and ids[0] in {x for y in alg.unkey(S.key[0]).gens() for x in _deps(y)}:
                K = S.key[1]
    if K is None:
        return ('unknown', 'guarded value outside a sum')
    j0 = fresh_atom('round', 0, 1 << 60)
    toj = Subst(amap={J.id: iatom(64, j0)})
    bad = None
    for gs, val in G.key:
        sub = Subst(gmap={ids[0]: alg.unkey(val)})
        a2, b2 = sub.F(a), sub.F(b)
        if feq(a2, b2):
            continue
        # what the guard makes equal
        ef = alg.Facts()
        for x in gs:
            if x[0] == 'f':
                q = alg.unkey(x[1])
                if q.den == P1:
                    ef.f_add(q.num, x[2])
        es = equalities(ef)
        if es:
            s2 = Subst(gmap=es)
            a2, b2 = s2.F(a2), s2.F(b2)
            if feq(a2, b2):
                continue
        f2 = facts.copy()
        f2._cache = {}
        f2.i_add_le({j0.id: -1}, 0)
        t = dict(K[2])
        if t:
            d = {x: -v for x, v in t.items()}
            d[j0.id] = d.get(j0.id, 0) + 1
            f2.i_add_le(d, 1 - K[1])
        ok, empty = True, False
        for q in dom:
            f2.f_add(toj.F(q[0]).num, True, -1)
        for x in gs:
            x = toj.guard(x)
            if x[0] in ('f', 'ne'):
                q = alg.unkey(x[1])
                if q.den != P1:
                    ok = False
                elif x[0] == 'f':
                    empty = empty or f2.f_infeasible(q.num, x[2])
                    f2.f_add(q.num, x[2])
                else:
                    f2.f_add_ne(q.num)
            elif x[0] == 'i':
                empty = empty or f2.i_infeasible(dict(x[1]), x[2])
                f2.i_add_le(dict(x[1]), x[2])
            else:
                f2.i_add_ne(dict(x[1]), x[2])
        if empty:
            continue
        if not ok:
            return ('unknown', 'guard')
        if not generic_differ(a2, b2, seed):
            return ('unknown', 'terms under a guard')
        w = sample(f2, (), n=1, seed=seed)
        if not w:
            return ('unknown', 'no point satisfies a guard')
        bad = bad or w[0]
    if bad is not None:
        return ('no', 'the term of a round is chosen by a guard and differs at %s' % show_point(bad))
    return ('yes', 'term by term under each guard')


def _deps(g):
    from .loops import _gdeps
    out = set()
    _gdeps(g, out)
    return out


def narrow(facts, vs, a, b):
    """a valuation, satisfying the facts to the letter, where the two values differ by more than rounding"""
    for v in vs:
        try:
            x, y = v.F(a), v.F(b)
            if x == x and y == y and abs(x - y) > 1e-13 * max(v.mag(a), v.mag(b)) and abs(x - y) > 1e-300 \
                    and all(v.fcon(c[0], c[1]) <= 0 for c in facts.fl):
                return v
        except (Bad, OverflowError, ZeroDivisionError):
            continue
    return None


def decide_eq(facts, a, b, bind=(), seed=SEED, dom=()):
    """('yes', how) / ('no', witness) / ('unknown', why)"""
    from .subst import Subst
    from .loops import entails_le
    if isinstance(a, I) and isinstance(b, I):
        if a == b:
            return ('yes', 'equal value numbers')
        d = isub(a, b)
        t, c = d.lin()
        if t and facts.i_le(t, c) and facts.i_le({x: -v for x, v in t.items()}, -c):
            return ('yes', 'entailed')
        vs = sample(facts, (a, b), bind=bind, seed=seed)
        if not vs:
            return ('no', 'distinct constants') if not t else ('unknown', 'no sample point')
        for v in vs:
            if v.I(a) != v.I(b):
                return ('no', '%s against %s' % (v.I(a), v.I(b)))
        return ('unknown', 'equal at sample points')
    if not isinstance(a, F) or not isinstance(b, F):
        if type(a) is type(b):
            return ('yes', 'same') if a == b else ('no', '%r against %r' % (a, b))
        return ('no', '%r against %r' % (a, b))
    if a.sp == 'undef' or b.sp == 'undef':
        return ('unknown', 'undefined value')
    if feq(a, b):
        return ('yes', 'equal value numbers')
    sub = equalities(facts)
    if sub:
        s = Subst(gmap=sub)
        a2, b2 = s.F(a), s.F(b)
        a2, b2 = s.F(a2), s.F(b2)
        if feq(a2, b2):
            return ('yes', 'equal under the path equalities')
    else:
        a2, b2 = a, b
    if not a2.sp and not b2.sp and entails_le(facts, a2, b2) and entails_le(facts, b2, a2):
        return ('yes', 'entailed')
    vs = sample(facts, (a, b), bind=bind, seed=seed)
    seen = 0
    if dom:
        from .subst import mkred
        low = [mkred('min', q, k, []) for q, k in dom]
    for v in vs:
        try:
            if dom and not all(v.F(q) > 0 for q in low):
                continue
            x, y = v.F(a), v.F(b)
            sc = 1e-3 * max(v.mag(a), v.mag(b))
        except (Bad, OverflowError, ZeroDivisionError):
            continue
        seen += 1
        if not close(x, y, scale=sc):
            return ('no', '%.6g against %.6g at %s' % (x, y, show_point(v)))
    if cases_in(a) | cases_in(b):
        return decide_cases(facts, a, b, dom, seed)
    w = wrapping(a, b)
    if w:
        # the identity has to hold for large integers too
        for v in sample(facts, (a, b), bind=bind, seed=seed, big=sorted(w), n=12):
            try:
                x, y = v.F(a), v.F(b)
            except (Bad, OverflowError, ZeroDivisionError):
                continue
            if not close(x, y):
                return ('no', '%.6g against %.6g at %s' % (x, y, show_point(v)))
        return ('unknown', 'equal at sample points; an integer may not fit its type')
    if seen >= 3 and narrow(facts, vs, a, b) is None:
        return ('yes', 'identity test')
    # the facts are hard to sample: compare the two functions at generic points
    diff = same = 0
    for t in range(40):
        v = Val(seed * 104729 + t)
        v.nanset = {g for g, b_ in facts.nan.items() if b_}
        try:
            for g, e in bind:
                v.g[g] = v.F(e)
            x, y = v.F(a2), v.F(b2)
        except (Bad, OverflowError, ZeroDivisionError, ValueError):
            continue
        if x != x and y != y:
            continue
        if close(x, y):
            same += 1
        else:
            diff += 1
    if seen >= 3:
        # nearly equal on the whole partition: one function, or two that a thin partition keeps close
        v = narrow(facts, vs, a, b)
        if diff >= 10 and diff > 9 * same:
            return ('no', '%.17g against %.17g at %s' % (v.F(a), v.F(b), show_point(v)))
        return ('yes', 'identity test')
    if diff == 0 and same >= 5:
        return ('yes', 'identity test (generic)')
    return ('unknown', 'no sample point of the partition (generic: %d different, %d equal)' % (diff, same))


def show_point(v):
    out = []
    for g, x in v.g.items():
        out.append('%s=%.4g' % (Gen.byid[g].name, x))
    for a, x in v.a.items():
        out.append('%s=%d' % (Atom.byid[a].name, x))
    for (o, i), x in v.arr.items():
        out.append('%s[byte %s]=%.4g' % (o.split('#')[0], i, x))
    return ', '.join(out[:14])
