"""Value domain of the analyser.

* floats  : rational functions over interned generators (exact coefficients), or NaN / +-inf
* ints    : linear forms modulo 2^w over interned atoms
* pointers: (object, byte offset form)
* facts   : conjunctions of linear (in)equalities over atoms / monomials, decided by Fourier-Motzkin
            elimination (the polyhedra domain), disequalities and NaN-ness of generators
"""
from fractions import Fraction as Fr
import math

# ---------------------------------------------------------------- generators


class Gen:
    __slots__ = ('id', 'kind', 'key', 'name', 'nonneg', 'nan')
    table = {}
    byid = []

    def __repr__(self):
        return self.name


def gen(kind, key=None, name=None, nonneg=False, nan=None):
    """intern a float generator. nan: False = never NaN, None = unknown"""
    k = (kind, key)
    g = Gen.table.get(k)
    if g is None:
        g = Gen()
        g.id = len(Gen.byid)
        g.kind, g.key = kind, key
        g.name = name if name is not None else ('%s(%s)' % (kind, show(key)))
        g.nonneg = nonneg
        g.nan = nan
        Gen.table[k] = g
        Gen.byid.append(g)
    return g


_fresh = [0]


def fresh(name, nan=None, nonneg=False, info=None):
    _fresh[0] += 1
    g = gen('var', ('#%d' % _fresh[0], info), name, nonneg, nan)
    return g


def show(x):
    if isinstance(x, tuple):
        return ', '.join(show(i) for i in x)
    return str(x)


# ---------------------------------------------------------------- polynomials (Laurent)
# monomial: tuple of (gen id, exponent) sorted ; poly: dict monomial -> Fraction
ONE = ()


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        n = d.get(g, 0) + e
        if n:
            d[g] = n
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


def minv(a):
    return tuple((g, -e) for g, e in a)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        t = []
        if c != 1 or not m:
            t.append(str(float(c)) if c.denominator != 1 else str(c))
        for g, e in m:
            t.append(Gen.byid[g].name + ('' if e == 1 else '^%d' % e))
        out.append('*'.join(t))
    return ' + '.join(out)


def content(p):
    """(monomial gcd, leading coefficient)"""
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for g in list(mins):
                mins[g] = min(mins[g], d.get(g, 0))
            for g, e in d.items():
                if g not in mins:
                    mins[g] = min(e, 0)
    mono = tuple(sorted((g, e) for g, e in mins.items() if e))
    return mono


class F:
    """rational function num/den; special: 'nan', 'inf', '-inf', 'undef'"""
    __slots__ = ('num', 'den', 'sp', '_h')

    def __init__(self, num=None, den=None, sp=None):
        self.num, self.den, self.sp = num, den, sp
        self._h = None

    def key(self):
        if self._h is None:
            if self.sp:
                self._h = ('sp', self.sp)
            else:
                self._h = (tuple(sorted(self.num.items())), tuple(sorted(self.den.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, F) and (self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.sp:
            return self.sp
        n = pshow(self.num)
        if self.den == {ONE: 1}:
            return n
        return '(%s)/(%s)' % (n, pshow(self.den))

    def isconst(self):
        if self.sp:
            return None
        if self.den == {ONE: 1}:
            if not self.num:
                return Fr(0)
            if len(self.num) == 1 and ONE in self.num:
                return self.num[ONE]
        return None

    def single(self):
        """the generator when self is exactly one generator"""
        if self.sp or self.den != {ONE: 1} or len(self.num) != 1:
            return None
        (m, c), = self.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return Gen.byid[m[0][0]]
        return None

    def gens(self):
        if self.sp:
            return set()
        return {g for p in (self.num, self.den) for m in p for g, _ in m}


P1 = {ONE: Fr(1)}
NAN = F(sp='nan')
INF = F(sp='inf')
NINF = F(sp='-inf')
UNDEFF = F(sp='undef')


def mk(num, den):
    if not num:
        return F({}, P1)
    if den is P1 or (len(den) == 1 and ONE in den and den[ONE] == 1):
        return F(num, P1)
    if len(den) == 1:
        (m, c), = den.items()
        im = minv(m)
        return F({mmul(k, im): v / c for k, v in num.items()}, P1)
    mono = content(den)
    lead = den[max(den)]
    if mono or lead != 1:
        im = minv(mono)
        den = {mmul(k, im): v / lead for k, v in den.items()}
        num = {mmul(k, im): v / lead for k, v in num.items()}
    # exact proportionality
    if len(num) == len(den):
        m0 = max(num)
        d0 = max(den)
        q = mmul(m0, minv(d0))
        c = num[m0] / den[d0]
        if all(num.get(mmul(k, q)) == v * c for k, v in den.items()):
            return F({q: c}, P1)
    if len(num) > len(den) <= 12 and len(num) < 200:
        qd = pdiv_exact(num, den)
        if qd is not None:
            return F(qd, P1)
    return F(num, den)


def pdiv_exact(num, den, limit=60):
    """exact division of Laurent polynomials or None"""
    d0 = max(den)
    dc = den[d0]
    r = dict(num)
    q = {}
    n = 0
    while r:
        n += 1
        if n > limit:
            return None
        m = max(r)
        k = mmul(m, minv(d0))
        c = r[m] / dc
        q[k] = q.get(k, 0) + c
        if len(r) > 400:
            return None
        r2 = padd(r, {mmul(k, x): c * v for x, v in den.items()}, -1)
        if r2 and max(r2) >= m:
            return None
        r = r2
    return {k: v for k, v in q.items() if v}


def fconst(x):
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else NINF
        x = Fr(x)
    x = Fr(x)
    return F({ONE: x} if x else {}, P1)


def fgen(g):
    return F({((g.id, 1),): Fr(1)}, P1)


def fvar(name, **kw):
    return fgen(fresh(name, **kw))


class Opaque(Exception):
    pass


def opq(op, *a):
    return fgen(gen('op:' + op, tuple(x.key() if isinstance(x, F) else x for x in a), '%s(%s)' % (op, show(a))))


def fadd(a, b):
    if a.sp or b.sp:
        if 'undef' in (a.sp, b.sp):
            return UNDEFF
        if 'nan' in (a.sp, b.sp):
            return NAN
        if a.sp and b.sp:
            return a if a.sp == b.sp else NAN
        return a if a.sp else b
    if a.den == b.den:
        return mk(padd(a.num, b.num), a.den)
    return mk(padd(pmul(a.num, b.den), pmul(b.num, a.den)), pmul(a.den, b.den))


def fneg(a):
    if a.sp:
        return {'inf': NINF, '-inf': INF}.get(a.sp, a)
    return F(pscale(a.num, -1), a.den)


def fsub(a, b):
    return fadd(a, fneg(b))


def fmul(a, b, sign=None):
    if a.sp or b.sp:
        if 'undef' in (a.sp, b.sp):
            return UNDEFF
        if 'nan' in (a.sp, b.sp):
            return NAN
        if b.sp:
            a, b = b, a
        if b.sp:
            return INF if a.sp == b.sp else NINF
        c = b.isconst()
        if c is None:
            return opq('mul', a, b)
        if c == 0:
            return NAN
        return a if c > 0 else fneg(a)
    return mk(pmul(a.num, b.num), pmul(a.den, b.den) if (a.den is not P1 or b.den is not P1) else P1)


def fdiv(a, b):
    if a.sp or b.sp:
        if 'undef' in (a.sp, b.sp):
            return UNDEFF
        if 'nan' in (a.sp, b.sp):
            return NAN
        if a.sp and b.sp:
            return NAN
        if b.sp:
            return fconst(0)
        c = b.isconst()
        if c is None:
            return opq('div', a, b)
        return a if c >= 0 else fneg(a)
    if not b.num:
        c = a.isconst()
        if c is None:
            return opq('div0', a)
        return NAN if c == 0 else (INF if c > 0 else NINF)
    return mk(pmul(a.num, b.den), pmul(a.den, b.num))


def feq(a, b):
    """syntactic equality of the real functions"""
    if a.sp or b.sp:
        return a.sp == b.sp
    if a.den == b.den:
        return a.num == b.num
    return pmul(a.num, b.den) == pmul(b.num, a.den)


def exp_of(u):
    if u.sp == 'nan':
        return NAN
    if u.sp == 'inf':
        return INF
    if u.sp == '-inf':
        return fconst(0)
    if u.sp:
        return u
    if u.isconst() == 0:
        return fconst(1)
    g = u.single()
    if g is not None and g.kind == 'log':
        return unkey(g.key)
    # sum of integer multiples of logs
    if u.den == P1 and all(len(m) == 1 and m[0][1] == 1 and Gen.byid[m[0][0]].kind == 'log' and c.denominator == 1
                           and abs(c) <= 4 for m, c in u.num.items()):
        r = fconst(1)
        for m, c in u.num.items():
            v = unkey(Gen.byid[m[0][0]].key)
            for _ in range(abs(int(c))):
                r = fmul(r, v) if c > 0 else fdiv(r, v)
        return r
    return fgen(gen('exp', u.key(), 'exp(%r)' % u, nonneg=True))


def unkey(k):
    if k[0] == 'sp':
        return F(sp=k[1])
    return F(dict(k[0]), dict(k[1]) if k[1] != ((ONE, 1),) else P1)


def _logpoly(p):
    """log of a polynomial: split content"""
    mono = content(p)
    r = fconst(0)
    for g, e in mono:
        G = Gen.byid[g]
        if G.kind == 'exp':
            r = fadd(r, fmul(fconst(e), unkey(G.key)))
        else:
            r = fadd(r, fmul(fconst(e), fgen(gen('log', fgen(G).key(), 'log(%s)' % G.name))))
    im = minv(mono)
    q = {mmul(k, im): v for k, v in p.items()}
    if len(q) == 1 and ONE in q:
        c = q[ONE]
        if c < 0:
            return None
    else:
        c = abs(q[max(q)])
        q = {k: v / c for k, v in q.items()}
        r = fadd(r, fgen(gen('log', F(q, P1).key(), 'log(%s)' % pshow(q))))
    if c != 1:
        r = fadd(r, fgen(gen('logc', c, 'log(%s)' % c)))
    return r


def log_of(u):
    if u.sp == 'nan' or u.sp == '-inf':
        return NAN
    if u.sp:
        return u
    c = u.isconst()
    if c == 0:
        return NINF
    if c == 1:
        return fconst(0)
    if c is not None and c < 0:
        return NAN
    a = _logpoly(u.num)
    b = _logpoly(u.den)
    if a is None or b is None:
        return fgen(gen('log', u.key(), 'log(%r)' % u))
    return fsub(a, b)


# ---------------------------------------------------------------- integers


class Atom:
    __slots__ = ('id', 'kind', 'key', 'name', 'lo', 'hi')
    table = {}
    byid = []

    def __repr__(self):
        return self.name


def atom(kind, key, name, lo, hi):
    k = (kind, key)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.byid)
        a.kind, a.key, a.name, a.lo, a.hi = kind, key, name, lo, hi
        Atom.table[k] = a
        Atom.byid.append(a)
    return a


def fresh_atom(name, lo, hi, info=None):
    _fresh[0] += 1
    return atom('ivar', ('#%d' % _fresh[0], info), name, lo, hi)


class I:
    __slots__ = ('w', 'c', 't', '_h')

    def __init__(self, w, c, t=None):
        self.w = w
        M = 1 << w
        self.c = c % M
        if t:
            H = M >> 1
            tt = {}
            for a, k in t.items():
                k %= M
                if k >= H and w > 1:
                    k -= M
                if k:
                    tt[a] = k
            self.t = tt
        else:
            self.t = {}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.w, self.c, tuple(sorted(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, I) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.c if not self.t else None

    def sconst(self):
        if self.t:
            return None
        return self.c - (1 << self.w) if self.c >= (1 << (self.w - 1)) else self.c

    def lin(self):
        """integer linear expression ({atom:coef}, const) with the constant read as signed"""
        c = self.c
        if c >= (1 << (self.w - 1)):
            c -= 1 << self.w
        return dict(self.t), c

    def __repr__(self):
        t, c = self.lin()
        s = ' + '.join(('%s' if k == 1 else '%d*%%s' % k) % Atom.byid[a].name for a, k in sorted(t.items()))
        if not s:
            return str(c)
        return s + (' %+d' % c if c else '')


def iconst(w, c):
    return I(w, c)


def iatom(w, a):
    return I(w, 0, {a.id: 1})


def iadd(a, b):
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + v
    return I(a.w, a.c + b.c, t)


def iscale(a, k):
    return I(a.w, a.c * k, {x: v * k for x, v in a.t.items()})


def isub(a, b):
    return iadd(a, iscale(b, -1))


# ---------------------------------------------------------------- pointers


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off      # obj: object id (str), off: I(64)

    def key(self):
        return ('ptr', self.obj, self.off.key())

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '&%s[%r]' % (self.obj, self.off)


class Sym:
    """symbolic pointer/function pointer, possibly null"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('sym', self.name)

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '<%s>' % self.name


class Null:
    def key(self):
        return ('null',)

    def __eq__(self, o):
        return isinstance(o, Null)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'NULL'


NULL = Null()


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('fn', self.name)

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '@' + self.name


class Undef:
    def key(self):
        return ('undef',)

    def __repr__(self):
        return 'undef'

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 3


UNDEF = Undef()


# ---------------------------------------------------------------- linear facts
# constraint: (terms: tuple sorted ((var, coef)...), const, strict)   meaning  sum + const <= 0 (or < 0)

def _norm(t, c, strict, integer):
    t = {k: v for k, v in t.items() if v}
    if not t:
        return (), c, strict
    if integer:
        # strict -> nonstrict ; divide by gcd and tighten
        if strict:
            c = c + 1
            strict = False
        g = 0
        for v in t.values():
            g = math.gcd(g, abs(int(v)))
        if g > 1:
            t = {k: int(v) // g for k, v in t.items()}
            c = -((-c) // g)
    else:
        m = abs(t[max(t)])
        if m != 1:
            t = {k: v / m for k, v in t.items()}
            c = c / m
    return tuple(sorted(t.items())), c, strict


def fm_infeasible(cons, integer, limit=4000):
    """True when the conjunction is certainly empty"""
    cur = {}

    def put(dst, t, c, s):
        t, c, s = _norm(dict(t), c, s, integer)
        if not t:
            return (c > 0) or (s and c >= 0)
        o = dst.get(t)
        if o is None or c > o[0] or (c == o[0] and s and not o[1]):
            dst[t] = (c, s)
        return False
    for t, c, s in cons:
        if put(cur, t, c, s):
            return True
    steps = 0
    while cur:
        # choose variable with the fewest combinations
        pos, neg = {}, {}
        for t in cur:
            for v, k in t:
                d = pos if k > 0 else neg
                d[v] = d.get(v, 0) + 1
        best = None
        for v in set(pos) | set(neg):
            n = pos.get(v, 0) * neg.get(v, 0)
            if best is None or n < best[0]:
                best = (n, v)
        v = best[1]
        up, lo, rest = [], [], {}
        for t, (c, s) in cur.items():
            k = dict(t).get(v, 0)
            if k > 0:
                up.append((t, c, s, k))
            elif k < 0:
                lo.append((t, c, s, k))
            else:
                rest[t] = (c, s)
        for t1, c1, s1, k1 in up:
            for t2, c2, s2, k2 in lo:
                steps += 1
                d = {}
                for x, k in t1:
                    d[x] = d.get(x, 0) + k * (-k2)
                for x, k in t2:
                    d[x] = d.get(x, 0) + k * k1
                d.pop(v, None)
                if put(rest, d, c1 * (-k2) + c2 * k1, s1 or s2):
                    return True
                if steps > limit:
                    return False
        cur = rest
    return False


class Facts:
    """persistent conjunction of facts"""
    __slots__ = ('il', 'ine', 'fl', 'fne', 'nan', 'null', 'prods', '_cache')

    def __init__(self):
        self.il = ()      # integer constraints
        self.ine = ()     # integer disequalities (terms tuple, const)
        self.fl = ()      # float constraints over monomials
        self.fne = ()     # float disequalities (poly key)
        self.nan = {}     # gen id -> bool
        self.null = {}    # Sym name -> bool
        self._cache = {}
        self.prods = False

    def copy(self):
        o = Facts.__new__(Facts)
        o.il, o.ine, o.fl, o.fne = self.il, self.ine, self.fl, self.fne
        o.nan = self.nan
        o.null = self.null
        o.prods = self.prods
        o._cache = self._cache
        return o

    # -- integers
    def _irel(self, terms):
        vs = set(terms)
        out = []
        pend = list(self.il)
        changed = True
        while changed:
            changed = False
            rest = []
            for con in pend:
                if any(v in vs for v, _ in con[0]):
                    out.append(con)
                    for v, _ in con[0]:
                        if v not in vs:
                            vs.add(v)
                    changed = True
                else:
                    rest.append(con)
            pend = rest
        for v in vs:
            a = Atom.byid[v]
            if a.lo is not None:
                out.append((((v, -1),), a.lo, False))
            if a.hi is not None:
                out.append((((v, 1),), -a.hi, False))
        return out, vs

    def i_infeasible(self, t, c):
        """facts and (t + c <= 0) certainly empty"""
        t = {k: v for k, v in t.items() if v}
        key = ('i', tuple(sorted(t.items())), c, self.il, self.ine)
        r = self._cache.get(key)
        if r is None:
            cons, vs = self._irel(t)
            cons.append((tuple(t.items()), c, False))
            r = fm_infeasible(cons, True)
            if not r:
                # disequalities
                for (nt, nc) in self.ine:
                    if all(v in vs for v, _ in nt):
                        a = fm_infeasible(cons + [(nt, nc + 1, False)], True)       # nt+nc <= -1
                        b = fm_infeasible(cons + [(tuple((v, -k) for v, k in nt), -nc + 1, False)], True)
                        if a and b:
                            r = True
                            break
            self._cache[key] = r
        return r

    def i_le(self, t, c):
        """entails t + c <= 0"""
        return self.i_infeasible({k: -v for k, v in t.items()}, -c + 1)

    def i_add_le(self, t, c):
        t2, c2, _ = _norm({k: v for k, v in t.items()}, c, False, True)
        if not t2:
            return
        con = (t2, c2, False)
        if con not in self.il:
            self.il = self.il + (con,)

    def i_add_ne(self, t, c):
        t = tuple(sorted((k, v) for k, v in t.items() if v))
        if not t:
            return
        if self.i_le(dict(t), c):
            self.i_add_le(dict(t), c + 1)
            return
        n = {k: -v for k, v in t}
        if self.i_le(n, -c):
            self.i_add_le(n, -c + 1)
            return
        self.ine = self.ine + ((t, c),)

    def i_ne(self, t, c):
        """t + c != 0 recorded or entailed"""
        t = tuple(sorted((k, v) for k, v in t.items() if v))
        if not t:
            return c != 0
        if (t, c) in self.ine or (tuple((k, -v) for k, v in t), -c) in self.ine:
            return True
        return self.i_le(dict(t), c + 1) or self.i_le({k: -v for k, v in t}, -c + 1)

    # -- floats (poly: dict monomial -> Fraction)
    def _frel(self, p):
        vs = set(m for m in p if m)
        out = []
        pend = list(self.fl)
        changed = True
        while changed:
            changed = False
            rest = []
            for con in pend:
                if any(v in vs for v, _ in con[0]):
                    out.append(con)
                    vs.update(v for v, _ in con[0])
                    changed = True
                else:
                    rest.append(con)
            pend = rest
        for m in vs:
            # a single generator: the facts about it are in `out` already, only its intrinsic sign is missing
            s = self.own_sign(m[0][0]) if len(m) == 1 and m[0][1] == 1 else self.mono_sign(m)
            if s == '+':
                out.append((((m, Fr(-1)),), Fr(0), True))
            elif s == '+0':
                out.append((((m, Fr(-1)),), Fr(0), False))
            elif s == '-':
                out.append((((m, Fr(1)),), Fr(0), True))
            elif s == '-0':
                out.append((((m, Fr(1)),), Fr(0), False))
        return out

    def own_sign(self, g):
        G = Gen.byid[g]
        if G.kind == 'exp':
            return '+'
        if G.kind == 'uitof':
            w, c, t = G.key
            d, cc = I(w, c, dict(t)).lin()
            return '+' if self.i_le({k: -v for k, v in d.items()}, -cc + 1) else '+0'
        return '+0' if G.nonneg else None

    def gen_sign(self, g):
        """'+', '-', '+0', '-0', None from facts on the single generator"""
        G = Gen.byid[g]
        m = ((g, 1),)
        cons = [c for c in self.fl if any(v == m for v, _ in c[0])]
        pos = G.nonneg
        if G.kind == 'uitof':
            # link with the integer facts
            w, c, t = G.key
            d, cc = I(w, c, dict(t)).lin()
            if self.i_le({k: -v for k, v in d.items()}, -cc + 1):
                return '+'
            pos = True
        if G.kind == 'exp':
            return '+'
        if not cons:
            return '+0' if pos else None
        base = [(((m, Fr(-1)),), Fr(0), False)] if pos else []
        allc = self._closure({m})
        if fm_infeasible(allc + base + [(((m, Fr(1)),), Fr(0), False)], False):
            return '+'
        if pos:
            return '+0'
        if fm_infeasible(allc + [(((m, Fr(-1)),), Fr(0), False)], False):
            return '-'
        if fm_infeasible(allc + [(((m, Fr(1)),), Fr(0), True)], False):
            return '+0'
        if fm_infeasible(allc + [(((m, Fr(-1)),), Fr(0), True)], False):
            return '-0'
        return None

    def _closure(self, vs):
        vs = set(vs)
        out = []
        pend = list(self.fl)
        changed = True
        while changed:
            changed = False
            rest = []
            for con in pend:
                if any(v in vs for v, _ in con[0]):
                    out.append(con)
                    vs.update(v for v, _ in con[0])
                    changed = True
                else:
                    rest.append(con)
            pend = rest
        return out

    def mono_sign(self, m):
        if not m:
            return '+'
        key = ('ms', m, self.fl, self.il)
        if key in self._cache:
            return self._cache[key]
        neg = False
        zero = False
        r = 0
        for g, e in m:
            s = self.gen_sign(g)
            if e % 2 == 0:
                if s not in ('+', '-'):
                    zero = True
                continue
            if s is None:
                r = None
                break
            if s[0] == '-':
                neg = not neg
            if s.endswith('0'):
                zero = True
        if r is not None:
            r = ('-' if neg else '+') + ('0' if zero else '')
        self._cache[key] = r
        return r

    def f_infeasible(self, p, strict, sgn=1):
        """facts and (sgn*p <= 0  [or < 0]) certainly empty"""
        p = {m: c * sgn for m, c in p.items()}
        c = p.pop(ONE, Fr(0))
        if not p:
            return c > 0 or (strict and c >= 0)
        key = ('f', tuple(sorted(p.items())), c, strict, self.fl, self.il, self.fne)
        r = self._cache.get(key)
        if r is None:
            cons = self._frel(p)
            cons.append((tuple(p.items()), c, strict))
            r = fm_infeasible(cons, False)
            if not r and not strict and self._is_ne(padd(p, {ONE: c} if c else {})):
                cons[-1] = (cons[-1][0], c, True)
                r = fm_infeasible(cons, False)
            if not r and self.prods:
                r = self._prod_infeasible(padd(p, {ONE: c} if c else {}), strict)
            self._cache[key] = r
        return r

    def _prod_infeasible(self, p, strict):
        """p <= 0 impossible because p is (a positive multiple of) a product of two facts"""
        fs = []
        for t, c, s in self.fl:
            q = {m: -k for m, k in t}
            if c:
                q[ONE] = -c
            fs.append((q, s))       # q >= 0 or q > 0
        for i, (a, s1) in enumerate(fs):
            for b, s2 in fs[i:]:
                if len(a) * len(b) < len(p):
                    continue
                pr = pmul(a, b)
                if set(pr) == set(p):
                    m = max(pr)
                    k = p[m] / pr[m]
                    if k > 0 and all(p[x] == pr[x] * k for x in pr):
                        if s1 and s2:
                            return True
                        if strict:
                            return True
        return False

    def f_add(self, p, strict, sgn=1):
        """add sgn*p <= 0 (or < 0)"""
        p = {m: c * sgn for m, c in p.items()}
        c = p.pop(ONE, Fr(0))
        if not p:
            return
        t, c, s = _norm(p, c, strict, False)
        con = (t, c, s)
        if con not in self.fl:
            self.fl = self.fl + (con,)

    @staticmethod
    def _pk(p):
        m = max(p)
        c = p[m]
        return tuple(sorted((k, v / c) for k, v in p.items()))

    def _is_ne(self, p):
        return bool(p) and bool(self.fne) and self._pk(p) in self.fne

    def f_add_ne(self, p):
        if not p or (len(p) == 1 and ONE in p):
            return
        k = self._pk(p)
        if k not in self.fne:
            self.fne = self.fne + (k,)
            # sharpen non-strict facts
            new = []
            for t, c, s in self.fl:
                q = dict(t)
                if c:
                    q[ONE] = c
                if not s and self._pk(q) == k:
                    s = True
                new.append((t, c, s))
            self.fl = tuple(new)

    def f_sign(self, p):
        """subset of '-0+' possible for poly p (assuming it is ordered)"""
        if not p:
            return '0'
        if len(p) == 1 and ONE in p:
            return '+' if p[ONE] > 0 else '-'
        r = ''
        if not self.f_infeasible(p, True, 1):
            r += '-'
        # zero possible?
        if not self._is_ne(p):
            if not (self.f_infeasible(p, False, 1) or self.f_infeasible(p, False, -1)):
                r += '0'
        if not self.f_infeasible(p, True, -1):
            r += '+'
        return r

    def isnan(self, g):
        """True/False/None"""
        G = Gen.byid[g]
        if G.nan is not None:
            return G.nan
        r = self.nan.get(g)
        if r is None and G.kind in ('exp', 'log', 'abs'):
            # NaN only through its argument (log of a negative is handled by the caller's facts)
            return None
        return r

    def set_nan(self, g, v):
        self.nan = dict(self.nan)
        self.nan[g] = v

    def describe(self):
        out = []
        for t, c, s in self.il:
            out.append(_cshow(t, c, s, lambda v: Atom.byid[v].name))
        for t, c in self.ine:
            out.append(_cshow(t, c, None, lambda v: Atom.byid[v].name))
        for t, c, s in self.fl:
            out.append(_cshow(t, c, s, lambda v: '*'.join(Gen.byid[g].name + ('' if e == 1 else '^%d' % e) for g, e in v)))
        for k in self.fne:
            out.append('%s != 0' % pshow(dict(k)))
        for g, v in self.nan.items():
            if v:
                out.append('%s is NaN' % Gen.byid[g].name)
        return out


def _cshow(t, c, s, nm):
    l = ' + '.join('%s' % nm(v) if k == 1 else '%s*%s' % (_n(k), nm(v)) for v, k in t if k > 0)
    r = ' + '.join('%s' % nm(v) if k == -1 else '%s*%s' % (_n(-k), nm(v)) for v, k in t if k < 0)
    if c > 0:
        l = (l + ' + ' if l else '') + _n(c)
    elif c < 0:
        r = (r + ' + ' if r else '') + _n(-c)
    return '%s %s %s' % (l or '0', '!=' if s is None else ('<' if s else '<='), r or '0')


def _n(k):
    return str(k) if getattr(k, 'denominator', 1) == 1 else '%g' % float(k)
