"""Substitution of generators / atoms inside values."""
from fractions import Fraction as Fr
from .alg import *
from . import alg


class Subst:
    def __init__(self, gmap=None, amap=None):
        self.g = gmap or {}     # gen id -> F
        self.a = amap or {}     # atom id -> I(64) (read as integers)
        self.cache = {}
        self.acache = {}

    def I(self, i):
        if not i.t:
            return i
        r = I(i.w, i.c)
        ch = False
        for a, k in i.t.items():
            n = self.atom(a)
            if n is None:
                r = iadd(r, I(i.w, 0, {a: k}))
            else:
                ch = True
                r = iadd(r, iscale(I(i.w, n.c, n.t), k))
        return r if ch else i

    def Ikey(self, key):
        i = I(key[0], key[1], dict(key[2]))
        return self.I(i).key()

    def atom(self, a):
        """replacement form or None"""
        if a in self.a:
            return self.a[a]
        if a in self.acache:
            return self.acache[a]
        A = Atom.byid[a]
        r = None
        if A.kind == 'elem':
            (oid, ver), off = A.key
            n = self.Ikey(off)
            v2 = self.ver(ver)
            if n != off or v2 != ver:
                r = iatom(64, atom('elem', ((oid, v2), n), A.name, A.lo, A.hi))
        elif A.kind == 'iop':
            op, x, y = A.key
            nx, ny = self.Ikey(x), self.Ikey(y)
            if (nx, ny) != (x, y):
                r = iatom(64, atom('iop', (op, nx, ny), A.name, A.lo, A.hi))
        elif A.kind == 'ext':
            w, s, k = A.key
            n = self.Ikey(k)
            if n != k:
                r = iatom(64, atom('ext', (w, s, n), A.name, A.lo, A.hi))
        elif A.kind in ('fptoint', 'bits'):
            k = A.key[-1]
            n = self.Fkey(k)
            if n != k:
                r = iatom(64, atom(A.kind, A.key[:-1] + (n,), A.name, A.lo, A.hi))
        self.acache[a] = r
        return r

    def ver(self, ver):
        out = []
        for w, v in ver:
            if isinstance(w, tuple) and len(w) == 3 and isinstance(w[0], int):
                w = self.Ikey(w)
            out.append((w, self.vk(v)))
        return tuple(out)

    def vk(self, v):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) and isinstance(v[1], tuple):
            return self.Fkey(v)
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], int):
            return self.Ikey(v)
        return v

    def Fkey(self, key):
        if key[0] == 'sp':
            return key
        f = unkey(key)
        return self.F(f).key()

    def gen(self, g):
        """replacement F or None"""
        if g in self.g:
            return self.g[g]
        if g in self.cache:
            return self.cache[g]
        G = Gen.byid[g]
        r = None
        k = G.kind
        if k in ('exp', 'log'):
            n = self.Fkey(G.key)
            if n != G.key:
                r = exp_of(unkey(n)) if k == 'exp' else log_of(unkey(n))
        elif k == 'elem':
            (oid, ver), off = G.key
            n = self.Ikey(off)
            v2 = self.ver(ver)
            if n != off or v2 != ver:
                r = fgen(mkelem(oid, v2, n, G))
        elif k == 'uitof':
            n = self.Ikey(G.key)
            if n != G.key:
                i = I(n[0], n[1], dict(n[2]))
                c = i.const()
                r = fconst(i.sconst()) if c is not None else fgen(gen('uitof', n, 'real(%r)' % i, nonneg=True, nan=False))
        elif k == 'sum':
            body, K = G.key
            b2 = self.Fkey(body)
            K2 = self.Ikey(K)
            if b2 != body or K2 != K:
                r = mksum(unkey(b2), I(K2[0], K2[1], dict(K2[2])))
        elif k == 'cases':
            n = tuple((tuple(self.guard(x) for x in gs), self.Fkey(v)) for gs, v in G.key)
            if n != G.key:
                r = mkcases(n)
        elif k in ('min', 'max'):
            body, K, ext = G.key
            b2, K2 = self.Fkey(body), self.Ikey(K)
            e2 = tuple(self.Fkey(x) for x in ext)
            if (b2, K2, e2) != G.key:
                r = fgen(gen(k, (b2, K2, e2), '%s{%r | %r}' % (k, unkey(b2), I(K2[0], K2[1], dict(K2[2])))))
        elif k == 'fun':
            name, args = G.key
            n = tuple(self.argkey(x) for x in args)
            if n != args:
                r = mkfun(name, n, G)
        elif k.startswith('op:'):
            n = tuple(self.vk(x) for x in G.key)
            if n != G.key:
                r = fgen(gen(k, n, '%s(%s)' % (k[3:], show(n))))
        self.cache[g] = r
        return r

    def guard(self, x):
        if x[0] in ('f', 'ne'):
            return (x[0], self.Fkey(x[1])) + x[2:]
        t, c = self.I128(x[1], x[2])
        return (x[0], tuple(sorted(t.items())), c)

    def argkey(self, x):
        if x[0] == 'F':
            return ('F', self.Fkey(x[1]))
        if x[0] == 'I':
            return ('I', self.Ikey(x[1]))
        return x

    def touches(self, f):
        return any(self.gen(g) is not None for g in f.gens())

    def F(self, f):
        if f.sp or not self.touches(f):
            return f
        n = self.poly(f.num)
        d = self.poly(f.den)
        return fdiv(n, d)

    def poly(self, p):
        r = fconst(0)
        keep = {}
        for m, c in p.items():
            if all(self.gen(g) is None for g, _ in m):
                keep[m] = c
                continue
            t = fconst(c)
            for g, e in m:
                b = self.gen(g)
                if b is None:
                    t = fmul(t, F({((g, e),): Fr(1)}, P1))
                else:
                    for _ in range(abs(e)):
                        t = fmul(t, b) if e > 0 else fdiv(t, b)
            r = fadd(r, t)
        return fadd(r, F(keep, P1)) if keep else r

    def val(self, v):
        if isinstance(v, F):
            return self.F(v)
        if isinstance(v, I):
            return self.I(v)
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.I(v.off))
        if isinstance(v, tuple):
            return tuple(self.val(x) if isinstance(x, (F, I, Ptr, tuple)) else x for x in v)
        return v

    def facts(self, f, drop_g=(), drop_a=()):
        """new Facts with substitution applied; constraints that become non polynomial are dropped"""
        n = f.copy()
        n._cache = {}
        il = []
        for t, c, s in f.il:
            i = I(128, c, dict(t))
            if any(a in drop_a for a in i.t):
                continue
            j = self.I128(t, c)
            tt, cc, _ = alg._norm(j[0], j[1], False, True)
            if tt:
                il.append((tt, cc, False))
        n.il = tuple(dict.fromkeys(il))
        ine = []
        for t, c in f.ine:
            if any(a in drop_a for a, _ in t):
                continue
            d, cc = self.I128(t, c)
            tt = tuple(sorted((k, v) for k, v in d.items() if v))
            if tt:
                ine.append((tt, cc))
        n.ine = tuple(dict.fromkeys(ine))
        fl = []
        for t, c, s in f.fl:
            p = {m: k for m, k in t}
            if any(g in drop_g for m in p for g, _ in m):
                continue
            if c:
                p[ONE] = c
            x = F(p, P1)
            y = self.F(x)
            if y.sp or y.den != P1:
                continue
            q = dict(y.num)
            cc = q.pop(ONE, Fr(0))
            if not q:
                continue
            tt, cc, ss = alg._norm(q, cc, s, False)
            fl.append((tt, cc, ss))
        n.fl = tuple(dict.fromkeys(fl))
        ne = []
        for k in f.fne:
            p = dict(k)
            if any(g in drop_g for m in p for g, _ in m):
                continue
            y = self.F(F(p, P1))
            if y.sp or y.den != P1 or not y.num:
                continue
            ne.append(Facts._pk(y.num))
        n.fne = tuple(dict.fromkeys(ne))
        nan = {}
        for g, v in f.nan.items():
            if g in drop_g:
                continue
            r = self.gen(g)
            if r is None:
                nan[g] = v
            else:
                s = r.single()
                if s is not None and s.nan is None:
                    nan[s.id] = v
        n.nan = nan
        return n

    def I128(self, t, c):
        d = {}
        for a, k in t:
            n = self.atom(a)
            if n is None:
                d[a] = d.get(a, 0) + k
            else:
                tt, cc = n.lin()
                c += k * cc
                for x, v in tt.items():
                    d[x] = d.get(x, 0) + k * v
        return {a: v for a, v in d.items() if v}, c

    def state(self, st, drop_g=(), drop_a=()):
        st.facts = self.facts(st.facts, drop_g, drop_a)
        for oid in list(st.mem):
            o = st.mem[oid]
            new = {k: self.val(v) for k, v in o.cells.items()}
            nw = tuple((self.I(a) if isinstance(a, I) else a, self.val(v)) for a, v in o.writes)
            ns = self.I(o.size) if isinstance(o.size, I) else o.size
            if new != o.cells or nw != o.writes or ns != o.size:
                o = st.wobj(oid)
                o.cells = new
                o.writes = nw
                o.size = ns


def mkelem(oid, ver, offkey, like):
    off = I(offkey[0], offkey[1], dict(offkey[2]))
    base = like.name.split('[')[0]
    t, c = off.lin()
    if c % 8 == 0 and all(v % 8 == 0 for v in t.values()):
        idx = '+'.join(['%s%s' % ('' if v == 8 else '%d*' % (v // 8), Atom.byid[a].name) for a, v in t.items()] +
                       ([str(c // 8)] if c or not t else []))
    else:
        idx = repr(off)
    return gen('elem', ((oid, ver), offkey), '%s[%s]' % (base, idx))


def mkfun(name, args, like=None):
    pretty = []
    for x in args:
        if x[0] == 'F':
            pretty.append(repr(unkey(x[1])))
        elif x[0] == 'I':
            pretty.append(repr(I(x[1][0], x[1][1], dict(x[1][2]))))
        else:
            pretty.append(show(x[1]))
    return fgen(gen('fun', (name, args), '%s(%s)' % (name, ', '.join(pretty)), nan=like.nan if like is not None else None))


def fun(name, *args, nan=None):
    ks = []
    for a in args:
        if isinstance(a, F):
            ks.append(('F', a.key()))
        elif isinstance(a, I):
            ks.append(('I', a.key()))
        else:
            ks.append(('O', vk(a)))
    r = mkfun(name, tuple(ks))
    if nan is not None:
        r.single().nan = nan
    return r


def vk(a):
    return a.key() if hasattr(a, 'key') else a


# bound variable of sums
J = atom('k', '#bound', 'j', 0, (1 << 62))


def has_atom_gen(g, a, memo):
    r = memo.get(g)
    if r is not None:
        return r
    memo[g] = False
    s = Subst(amap={a: iconst(64, 1 << 40)})
    r = s.gen(g) is not None
    memo[g] = r
    return r


def mksum(body, K):
    """sum_{j=0}^{K-1} body(j), body an F over the bound atom J"""
    if body.sp:
        if body.sp == 'nan':
            return NAN
        return opq('sumsp', body)
    memo = {}
    if K.const() == 0:
        return fconst(0)
    dep = lambda g: has_atom_gen(g, J.id, memo)
    kf = None

    def realK():
        c = K.const()
        if c is not None:
            return fconst(c)
        t, c = K.lin()
        return fgen(gen('uitof', (64, c % (1 << 64), tuple(sorted(t.items()))), 'real(%r)' % K, nonneg=True, nan=False))
    if any(dep(g) for m in body.den for g, _ in m):
        # indivisible: normalise direction and leading coefficient
        lead = body.num[max(body.num)]
        # pull common J-free monomial content out of the numerator
        mono = tuple((g, e) for g, e in content(body.num) if not dep(g))
        out = F({mono: lead}, P1)
        b = fdiv(body, out)
        return fmul(out, _sumgen(b, K))
    res = fconst(0)
    groups = {}
    for m, c in body.num.items():
        inner = tuple((g, e) for g, e in m if dep(g))
        outer = tuple((g, e) for g, e in m if not dep(g))
        groups.setdefault(inner, {})
        groups[inner][outer] = groups[inner].get(outer, 0) + c
    for inner, coef in groups.items():
        cf = F(coef, P1)
        if not inner:
            res = fadd(res, fmul(cf, realK()))
        else:
            res = fadd(res, fmul(cf, _sumgen(F({inner: Fr(1)}, P1), K)))
    return fdiv(res, F(body.den, P1)) if body.den != P1 else res


def mkcases(key):
    """value chosen by guards (polynomial signs, integer relations): ((guards, value), ...)"""
    return fgen(gen('cases', key, 'cases{%s}' % ' | '.join(repr(unkey(v)) for _, v in key)))


def _dir(body):
    for g in sorted(body.gens()):
        d = _gdir(g)
        if d:
            return d
    return 0


def _gdir(g):
    G = Gen.byid[g]
    if G.kind == 'elem':
        t = dict(G.key[1][2])
        if J.id in t:
            v = t[J.id]
            return 1 if v > 0 else -1
        return 0
    if G.kind in ('exp', 'log'):
        return _dir(unkey(G.key)) if G.key[0] != 'sp' else 0
    if G.kind == 'cases':
        for gs, v in G.key:
            d = _dir(unkey(v))
            for x in gs:
                if not d and x[0] in ('f', 'ne'):
                    d = _dir(unkey(x[1]))
            if d:
                return d
    return 0


def _sumgen(body, K):
    if _dir(body) < 0:
        body = Subst(amap={J.id: isub(iadd(K, iconst(64, -1)), iatom(64, J))}).F(body)
    return fgen(gen('sum', (body.key(), K.key()), 'sum{j<%r: %r}' % (K, body)))


def mkred(kind, body, K, ext):
    """min / max over {body(j): j<K} and the extra values"""
    ext = list(ext)
    if _dir(body) < 0:
        body = Subst(amap={J.id: isub(iadd(K, iconst(64, -1)), iatom(64, J))}).F(body)
    # absorb an extra value equal to body(-1)
    prev = Subst(amap={J.id: iconst(64, -1)}).F(body)
    for e in list(ext):
        if feq(e, prev):
            ext.remove(e)
            body = Subst(amap={J.id: iadd(iatom(64, J), iconst(64, -1))}).F(body)
            K = iadd(K, iconst(64, 1))
            prev = Subst(amap={J.id: iconst(64, -1)}).F(body)
    first = Subst(amap={J.id: iconst(64, 0)}).F(body)
    ext = [e for e in ext if not feq(e, first)]
    ek = tuple(sorted((e.key() for e in ext), key=repr))
    return fgen(gen(kind, (body.key(), K.key(), ek), '%s{j<%r: %r%s}' % (kind, K, body, ''.join(', %r' % e for e in ext))))
