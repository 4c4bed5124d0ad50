"""Taylor models: abstract interpretation of numeric code over boxes of doubles.

A double is represented, for every input x = c + h*t (t in [-1,1]) of a box at once, by
2**s * (polynomial(t) + e), |e| <= err; the error term covers truncation and the rounding of
every floating-point operation.  64-bit integers are vectors of known or symbolic bits, so
that code looking at the representation of a double stays exact.  Nothing is executed.
"""
import math
import time
from fractions import Fraction as Fr
import numpy as np

N = 16
U53 = 2.0 ** -53
BIG = 2.0 ** 1023


class Undecided(Exception):
    pass


class Wrong(Undecided):
    """with constant arguments: the call certainly does not come back"""


class Split(Exception):
    """the box must be cut at these t in (-1,1)"""

    def __init__(self, ts, why=''):
        self.ts, self.why = ts, why


def fr(x):
    return Fr(x)


def _norm(s, c, err):
    m = max(float(np.max(np.abs(c))), err)
    if m == 0 or not math.isfinite(m):
        return s, c, err
    e = math.frexp(m)[1]
    if abs(e) > 8:
        return s + e, c * 2.0 ** -e if abs(e) < 1000 else np.ldexp(c, -e), math.ldexp(err, -e)
    return s, c, err


class V:
    __slots__ = ('s', 'c', 'err', 'k', 'rng', 'bits', 'loss')

    def __init__(self, s, c, err, rng=None, bits=None, loss=()):
        self.loss = loss         # where bits of a generic value were lost in the subnormal range
        self.s, self.c, self.err = _norm(s, c, err)
        self.k = None
        self.rng = rng           # exact (lo, hi) as fractions, when known better than from the polynomial
        self.bits = bits

    def bound(self):
        """(lo, hi) in units of 2**s, as floats"""
        r = float(np.sum(np.abs(self.c[1:]))) * (1 + 1e-15) + self.err
        return self.c[0] - r, self.c[0] + r

    def range(self):
        lo, hi = self.bound()
        f = Fr(2) ** self.s
        lo, hi = Fr(lo) * f, Fr(hi) * f
        if self.rng is not None:
            lo, hi = max(lo, self.rng[0]), min(hi, self.rng[1])
        return lo, hi

    def __repr__(self):
        lo, hi = self.range()
        return '[%s, %s]' % (fshow(lo), fshow(hi))


def fshow(x):
    try:
        return '%.17g' % float(x)
    except OverflowError:
        return '2^%d' % (x.numerator.bit_length() - x.denominator.bit_length())


def exact(v):
    """V of a finite float constant"""
    if isinstance(v, V):
        return v
    m, e = math.frexp(v)
    c = np.zeros(N)
    c[0] = m
    r = V(e, c, 0.0, (Fr(v), Fr(v)))
    return r


def box(lo, hi):
    """the identity on the doubles between lo and hi (fractions)"""
    lo, hi = Fr(lo), Fr(hi)
    m = max(abs(lo), abs(hi))
    s = m.numerator.bit_length() - m.denominator.bit_length()
    f = Fr(2) ** -s
    c, h = (lo + hi) / 2 * f, (hi - lo) / 2 * f
    cf, hf = float(c), float(h)
    a = np.zeros(N)
    a[0], a[1] = cf, hf
    err = float(abs(Fr(cf) - c) + abs(Fr(hf) - h)) * (1 + 1e-9)
    return V(s, a, err, (lo, hi))


def align(a, b):
    if a.s == b.s:
        return a.s, a.c, a.err, b.c, b.err
    if a.s > b.s:
        d = b.s - a.s
        if d < -1000:
            return a.s, a.c, a.err, np.zeros(N), 1e-290
        f = 2.0 ** d
        return a.s, a.c, a.err, b.c * f, b.err * f
    s, bc, be, ac, ae = align(b, a)
    return s, ac, ae, bc, be


def add(a, b, sub=False):
    s, ac, ae, bc, be = align(a, b)
    c = ac - bc if sub else ac + bc
    e = (ae + be) * (1 + 1e-12) + float(np.sum(np.abs(c))) * 2.3e-16
    return V(s, c, e, loss=a.loss + b.loss)


def mul(a, b):
    full = np.convolve(a.c, b.c)
    ma, mb = float(np.sum(np.abs(a.c))), float(np.sum(np.abs(b.c)))
    e = float(np.sum(np.abs(full[N:]))) + a.err * (mb + b.err) + b.err * ma + ma * mb * 8e-16
    return V(a.s + b.s, full[:N].copy(), e * (1 + 1e-12), loss=a.loss + b.loss)


def recip(b):
    """1/b for b without zero"""
    lo, hi = b.bound()
    if lo <= 0 <= hi:
        return None
    b0 = b.c[0]
    q = np.zeros(N)
    q[0] = 1.0 / b0
    bc = b.c
    for i in range(1, N):
        q[i] = -np.dot(bc[1:i + 1], q[i - 1::-1]) / b0 if i > 1 else -bc[1] * q[0] / b0
    # residual 1 - b*q, exactly bounded
    full = np.convolve(bc, q)
    full[0] -= 1.0
    mb, mq = float(np.sum(np.abs(bc))), float(np.sum(np.abs(q)))
    r = float(np.sum(np.abs(full))) + mb * mq * 8e-16 + b.err * mq
    m = min(abs(lo), abs(hi))
    return V(-b.s, q, r / m * (1 + 1e-12), loss=b.loss)


def scale2(v, n, sign=1):
    r = V(v.s + n, v.c if sign > 0 else -v.c, v.err, loss=v.loss)
    if v.rng is not None:
        f = Fr(2) ** n
        a, b = v.rng[0] * f, v.rng[1] * f
        r.rng = (a, b) if sign > 0 else (-b, -a)
    return r


def roots(d):
    """t in (-1,1) where the polynomial crosses zero"""
    c = np.array(d.c)
    n = N
    while n > 1 and abs(c[n - 1]) <= 1e-18 * np.max(np.abs(c)):
        n -= 1
    if n < 2:
        return []
    try:
        r = np.roots(c[:n][::-1])
    except Exception:
        return []
    return sorted(float(x.real) for x in r if abs(x.imag) < 1e-9 and -1 < x.real < 1)


def ispow2(x):
    return x != 0 and math.isfinite(x) and abs(math.frexp(x)[0]) == 0.5


class Poison:
    """result of an undefined operation; a defect only when it is used"""

    def __init__(self, ins, text):
        self.ins, self.text = ins, text


class Bits:
    """integer of given width; b[i] in {0,1} or ('m', i, src)"""
    __slots__ = ('w', 'b', 'src')

    def __init__(self, w, b, src):
        self.w, self.b, self.src = w, tuple(b), src


def bits_int(x):
    if all(v in (0, 1) for v in x.b):
        return sum(v << i for i, v in enumerate(x.b))
    return x


def to_bits(v, w):
    return [(v >> i) & 1 for i in range(w)]


def binade(v):
    """E with 2**E <= |v| < 2**(E+1) for all values, or None; and the sign"""
    lo, hi = v.range()
    if lo <= 0 <= hi:
        return None
    sg = 1 if lo > 0 else -1
    a, b = (lo, hi) if sg > 0 else (-hi, -lo)

    def lg(x):
        e = x.numerator.bit_length() - x.denominator.bit_length()
        return e if Fr(2) ** e <= x else e - 1
    ea, eb = lg(a), lg(b)
    if ea != eb:
        return None
    return ea, sg


def double_bits(v):
    if isinstance(v, float):
        import struct
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    if v.bits is not None:
        return v.bits
    r = binade(v)
    if r is None:
        lo, hi = v.range()
        if lo > 0 or hi < 0:
            # cut at powers of two
            raise Split([], 'exponent')
        raise Undecided('representation of a value that may be zero')
    E, sg = r
    if E < -1022:
        n = E + 1074                      # leading bit of the field
        if n < 0:
            raise Undecided('below the smallest double')
        b = [('m', i) for i in range(n)] + [1] + [0] * (63 - n - 1) + [0 if sg > 0 else 1]
    else:
        ef = E + 1023
        if ef >= 0x7ff:
            raise Undecided('overflow')
        b = [('m', i) for i in range(52)] + to_bits(ef, 11) + [0 if sg > 0 else 1]
    return Bits(64, b, v)


def bits_double(x):
    if isinstance(x, int):
        import struct
        return struct.unpack('<d', struct.pack('<Q', x))[0]
    sg = x.b[63]
    if sg not in (0, 1) or not all(v in (0, 1) for v in x.b[52:63]):
        raise Undecided('double with unknown exponent')
    ef = sum(v << i for i, v in enumerate(x.b[52:63]))
    src = x.src
    r = binade(src)
    E, s0 = r
    if E >= -1022:
        if x.b[:52] != tuple(('m', i) for i in range(52)):
            raise Undecided('mangled mantissa')
        if ef == 0:
            raise Undecided('made subnormal')
        if ef == 0x7ff:
            return math.nan
        v = scale2(src, ef - 1023 - E, 1 if (sg == 0) == (s0 > 0) else -1)
    else:
        if x.b[:63] != double_bits(src).b[:63]:
            raise Undecided('mangled mantissa')
        v = scale2(src, 0, 1 if (sg == 0) == (s0 > 0) else -1)
    return v


class Interp:
    def __init__(self, m, tiny=False, script=(), fuel=20000, hooks=None):
        self.m, self.tiny = m, tiny
        self.script = list(script)
        self.pos = 0
        self.alts = []
        self.fuel = fuel
        self.active = []
        self.mem = {}
        self.nobj = 0
        self.notes = []           # (kind, inst, text) definite problems
        self.hooks = hooks or {}
        self.rounded = 0
        self.fns = set()

    # -- decisions
    def choose(self, ds, opts, why):
        """several outcomes possible on this box"""
        if not self.tiny:
            ts = []
            for d in ds:
                ts += roots(d)
            raise Split(ts, why)
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            self.alts.append((self.pos, opts[1:]))
            r = opts[0]
            self.script.append(r)
        self.pos += 1
        return r

    # -- memory
    def obj(self):
        self.nobj += 1
        self.mem[self.nobj] = {}
        return ('p', self.nobj, 0)

    def gconst(self, c, ty):
        if c.kind == 'zero':
            if ty.kind == 'double':
                return 0.0
            if ty.kind == 'int':
                return 0
            if ty.kind == 'ptr':
                return ('null',)
        if c.kind in ('int', 'fp', 'func', 'null', 'global', 'expr'):
            return self.const(c)
        raise Undecided('global initialiser')

    def load(self, p, ty):
        if p[0] == 'g':
            G = self.m.globals[p[1]]
            if p in self.mem:
                return self.mem[p]
            if G.init is None:
                raise Undecided('global without value')
            c, t, off = G.init, G.ty, p[2]
            while t.kind in ('array', 'struct'):
                if t.kind == 'array':
                    i = off // t.elem.size
                    off -= i * t.elem.size
                    if not 0 <= i < t.count:
                        raise Undecided('outside a global array')
                    nt = t.elem
                else:
                    i = max(j for j, o in enumerate(t.offsets) if o <= off)
                    off -= t.offsets[i]
                    nt = t.elems[i]
                c = c if c.kind == 'zero' else c.v[i]
                t = nt
            return self.gconst(c, t)
        if p[0] != 'p':
            raise Undecided('load through %r' % (p,))
        v = self.mem[p[1]].get(p[2])
        if v is None:
            raise Undecided('uninitialised load')
        if ty.kind == 'double' and isinstance(v, int):
            return bits_double(v)
        if ty.kind == 'int' and ty.bits == 64 and isinstance(v, (float, V)):
            return bits_int_(double_bits(v))
        return v

    def store(self, p, v):
        if p[0] == 'g':
            self.mem[p] = v
            return
        if p[0] != 'p':
            raise Undecided('store through %r' % (p,))
        self.mem[p[1]][p[2]] = v

    # -- values
    def const(self, c):
        k = c.kind
        if k == 'int':
            return c.v
        if k == 'fp':
            return c.v
        if k == 'func':
            return ('f', c.v)
        if k == 'null':
            return ('null',)
        if k == 'global':
            return ('g', c.v, 0)
        if k == 'undef':
            return None
        if k == 'zero' and c.ty.kind == 'ptr':
            return ('null',)
        if k == 'expr' and c.op == 'getelementptr':
            return self.gep(self.const(c.args[0]), c.extra, [self.const(a) for a in c.args[1:]], [a.ty.bits for a in c.args[1:]])
        if k == 'expr' and c.op == 'bitcast':
            return self.const(c.args[0])
        raise Undecided('constant %r' % (c,))

    def gep(self, base, ty, idx, ws):
        off = 0
        for j, (i, w) in enumerate(zip(idx, ws)):
            if not isinstance(i, int):
                raise Undecided('symbolic index')
            i = i - (1 << w) if i >> (w - 1) else i
            if j == 0:
                off += i * ty.size
            elif ty.kind == 'array':
                ty = ty.elem
                off += i * ty.size
            else:
                off += ty.offsets[i]
                ty = ty.elems[i]
        if base[0] in ('p', 'g'):
            return (base[0], base[1], base[2] + off)
        if base[0] == 'null' and off == 0:
            return base
        raise Undecided('pointer arithmetic')

    def rnd(self, v, ins, exact_ok=False):
        """rounding of a result to double: adds the error, finds overflow"""
        lo, hi = v.range()
        top = Fr(2) ** 1024
        if max(abs(lo), abs(hi)) >= top - Fr(2) ** 970:
            if lo >= top:
                return math.inf
            if hi <= -top:
                return -math.inf
            one = Fr(2) ** 1023
            d1 = add(v, exact(BIG), True)
            d1 = add(d1, exact(BIG), True)
            d2 = add(add(v, exact(BIG)), exact(BIG))
            r = self.choose([d1, d2], ['fin', 'inf'], 'overflow')
            if r == 'inf':
                return math.inf if lo + hi > 0 else -math.inf
        # the smallest magnitude
        small = lo <= 0 <= hi or min(abs(lo), abs(hi)) < Fr(2) ** -1022
        if exact_ok and not small:
            return v
        self.rounded += 1
        a, b = v.bound()
        e = v.err + max(abs(a), abs(b)) * (0 if exact_ok else U53) * (1 + 1e-10)
        r = V(v.s, v.c, e, loss=v.loss)
        if small:
            r.loss = v.loss + (loc(ins),)
            # absolute error of half the smallest subnormal
            d = -1075 - r.s
            if d > 200:
                return V(-1075, np.zeros(N), 1.0 + 1e-9, loss=r.loss)
            r = V(r.s, r.c, r.err + (2.0 ** d if -1000 < d < 1000 else (1e-290 if d < 0 else math.inf)), loss=r.loss)
        if exact_ok:
            r.rng = (lo - Fr(2) ** -1075, hi + Fr(2) ** -1075)
        return r

    def fop(self, op, a, b, ins):
        if a is None or b is None:
            raise Undecided('undefined operand')
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == 'fadd':
                    return a + b
                if op == 'fsub':
                    return a - b
                if op == 'fmul':
                    return a * b
                if op == 'fdiv':
                    if b == 0:
                        if a == 0 or a != a:
                            return math.nan
                        return math.copysign(math.inf, a) * math.copysign(1.0, b)
                    return a / b
            except OverflowError:
                pass
            raise Undecided(op)
        for x in (a, b):
            if isinstance(x, float) and x != x:
                return math.nan

        def sgn(v):
            if isinstance(v, float):
                return 1 if math.copysign(1, v) > 0 else -1
            lo, hi = v.range()
            if lo > 0:
                return 1
            if hi < 0:
                return -1
            return self.choose([v], [1, -1], 'sign')
        if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
            if op == 'fadd':
                return a if isinstance(a, float) else b
            if op == 'fsub':
                return a if isinstance(a, float) else -b
            if op == 'fmul':
                return math.inf * sgn(a) * sgn(b)
            if op == 'fdiv':
                return math.inf * sgn(a) * sgn(b) if isinstance(a, float) else 0.0 * sgn(a) * sgn(b)
        if op in ('fadd', 'fsub'):
            if isinstance(a, float) and a == 0 and op == 'fadd':
                return b
            if isinstance(b, float) and b == 0:
                return a
            x, y = exact(a), exact(b)
            return self.rnd(add(x, y, op == 'fsub'), ins)
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float) and x == 0:
                    return 0.0 * sgn(y) * math.copysign(1, x)
                if isinstance(x, float) and x == 1:
                    return y
                if isinstance(x, float) and ispow2(x):
                    return self.rnd(scale2(y, math.frexp(x)[1] - 1, 1 if x > 0 else -1), ins, True)
            return self.rnd(mul(exact(a), exact(b)), ins)
        if op == 'fdiv':
            if isinstance(b, float):
                if b == 0:
                    return math.inf * sgn(a) * math.copysign(1, b)
                if b == 1:
                    return a
                if ispow2(b):
                    return self.rnd(scale2(a, 1 - math.frexp(b)[1], 1 if b > 0 else -1), ins, True)
            if isinstance(a, float) and a == 0:
                return 0.0 * sgn(b) * math.copysign(1, a)
            y = exact(b)
            r = recip(y)
            if r is None:
                if self.tiny:
                    raise Undecided('division by a value that may vanish')
                raise Split(roots(y), 'divisor')
            return self.rnd(mul(exact(a), r), ins)
        raise Undecided(op)

    def fcmp(self, pred, a, b, ins):
        if a is None or b is None:
            raise Undecided('undefined operand')
        nan = any(isinstance(x, float) and x != x for x in (a, b))
        if nan:
            return int(pred[0] == 'u' and pred != 'uno' or pred in ('uno', 'true'))
        if pred == 'ord' or pred == 'true':
            return 1
        if pred in ('uno', 'false'):
            return 0
        if isinstance(a, float) and isinstance(b, float):
            s = (a > b) - (a < b)
        elif a is b:
            s = 0
        else:
            s = None
            for x, y, g in ((a, b, 1), (b, a, -1)):
                if isinstance(x, float) and math.isinf(x):
                    s = g if x > 0 else -g
            if s is None:
                x, y = exact(a), exact(b)
                la, ha = x.range()
                lb, hb = y.range()
                if la > hb:
                    s = 1
                elif ha < lb:
                    s = -1
                else:
                    d = add(x, y, True)
                    lo, hi = d.range()
                    if lo > 0:
                        s = 1
                    elif hi < 0:
                        s = -1
                    else:
                        p = pred[1:]
                        eq_edge = (la == hb) or (ha == lb)
                        if p == 'gt' and ha <= lb or p == 'lt' and la >= hb:
                            return 0
                        if p == 'ge' and la >= hb or p == 'le' and ha <= lb:
                            return 1
                        opts = [0, 1]
                        return self.choose([d], opts, 'comparison')
        p = pred[1:]
        return int({'eq': s == 0, 'ne': s != 0, 'gt': s > 0, 'ge': s >= 0, 'lt': s < 0, 'le': s <= 0}[p])

    def toint(self, v, w, signed, ins):
        lo_ok, hi_ok = (-(1 << (w - 1)) - 1, 1 << (w - 1)) if signed else (-1, 1 << w)
        if isinstance(v, float):
            if v != v or math.isinf(v) or not lo_ok < v < hi_ok:
                return Poison(ins, 'the value %r is converted to a %d-bit %s integer, which cannot hold it' % (v, w, 'signed' if signed else 'unsigned'))
            return int(v) & ((1 << w) - 1)
        lo, hi = v.range()
        if hi <= lo_ok or lo >= hi_ok:
            return Poison(ins, 'a value in %r is converted to a %d-bit %s integer, which cannot hold it' % (v, w, 'signed' if signed else 'unsigned'))
        if not (lo > lo_ok and hi < hi_ok):
            if self.tiny:
                raise Undecided('conversion at the edge of the range')
            raise Split(roots(add(v, exact(float(hi_ok)), True)) + roots(add(v, exact(float(lo_ok)), True)), 'conversion range')

        def tr(x):
            return math.floor(x) if x >= 0 else math.ceil(x)
        a, b = tr(lo), tr(hi)
        if a == b:
            return a & ((1 << w) - 1)
        if not self.tiny:
            if b - a > 40:
                raise Split([], 'conversion')
            ts = []
            for k in range(a, b + 1):
                ts += roots(add(v, exact(float(k)), True))
            raise Split(ts, 'conversion')
        return self.choose([], [k & ((1 << w) - 1) for k in range(a, b + 1)], 'conversion')

    # -- integers
    def iop(self, op, a, b, w, ins):
        M = (1 << w) - 1
        if a is None or b is None:
            raise Undecided('undefined operand')
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = (x - (1 << w) if x >> (w - 1) else x for x in (a, b))
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op in ('shl', 'lshr', 'ashr') and b >= w:
                raise Undecided('shift')
            if op == 'shl':
                return (a << b) & M
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sa >> b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if b and op == 'udiv':
                return a // b
            if b and op == 'urem':
                return a % b
            if sb and op == 'sdiv':
                return int(sa / sb) & M if abs(sa) < 1 << 50 else (abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) & M
            if sb and op == 'srem':
                return (abs(sa) % abs(sb) * (-1 if sa < 0 else 1)) & M
            raise Undecided(op)
        if isinstance(a, int) and op in ('and', 'or', 'xor', 'add'):
            a, b = b, a
        if not isinstance(a, Bits):
            raise Undecided('integer %s' % op)
        if isinstance(b, Bits):
            if op in ('and', 'or', 'xor', 'add') and a.src is b.src:
                out = []
                for x, y in zip(a.b, b.b):
                    if op == 'and':
                        r = 0 if x == 0 or y == 0 else x if y == 1 or x == y else y if x == 1 else None
                    elif op == 'or' or op == 'add':
                        r = x if y == 0 else y if x == 0 else (1 if op == 'or' and (x == 1 or y == 1) else x if op == 'or' and x == y else None)
                    else:
                        r = x if y == 0 else y if x == 0 else 0 if x == y else None
                    if r is None:
                        raise Undecided('bits')
                    out.append(r)
                return bits_int_(Bits(w, out, a.src))
            raise Undecided('bits')
        if not isinstance(b, int):
            raise Undecided('bits')
        x = list(a.b)
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                raise Undecided('shift')
            if op == 'shl':
                x = [0] * b + x[:w - b]
            else:
                x = x[b:] + [x[-1] if op == 'ashr' else 0] * b
        elif op in ('and', 'or', 'xor'):
            y = to_bits(b, w)
            out = []
            for p, q in zip(x, y):
                if op == 'and':
                    out.append(p if q else 0)
                elif op == 'or':
                    out.append(1 if q else p)
                elif q and p not in (0, 1):
                    raise Undecided('bits')
                else:
                    out.append(1 - p if q else p)
            x = out
        elif op in ('add', 'sub'):
            y = b if op == 'add' else (-b) & M
            k = 0
            while k < w and not (y >> k) & 1:
                k += 1
            # the low k bits are unchanged; the rest must be known
            if not all(v in (0, 1) for v in x[k:]):
                # symbolic bits in between are fine as long as no carry starts below them
                raise Undecided('carry through unknown bits')
            hi = sum(v << i for i, v in enumerate(x[k:]))
            x = x[:k] + to_bits((hi + (y >> k)) & ((1 << (w - k)) - 1), w - k)
        else:
            raise Undecided(op)
        return bits_int_(Bits(w, x, a.src))

    def icmp(self, pred, a, b, w, ins):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            raise Undecided('pointer order')
        if a is None or b is None:
            raise Undecided('undefined operand')
        if isinstance(a, Bits) or isinstance(b, Bits):
            def rng(v):
                if isinstance(v, int):
                    return v, v
                return (sum(1 << i for i, x in enumerate(v.b) if x == 1), sum(1 << i for i, x in enumerate(v.b) if x != 0))
            la, ha = rng(a)
            lb, hb = rng(b)
            if pred[0] == 's':
                top = 1 << (w - 1)
                if (la ^ ha) & top or (lb ^ hb) & top:
                    raise Undecided('sign')
                la, ha, lb, hb = (v - (1 << w) if v & top else v for v in (la, ha, lb, hb))
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if p in ('eq', 'ne'):
                if ha < lb or hb < la or isinstance(a, Bits) and isinstance(b, int) and any(x in (0, 1) and x != (b >> i) & 1 for i, x in enumerate(a.b)):
                    return int(p == 'ne')
                raise Undecided('bits compared')
            t = {'gt': (la > hb, ha <= lb), 'ge': (la >= hb, ha < lb), 'lt': (ha < lb, la >= hb), 'le': (ha <= lb, la > hb)}[p]
            if t[0]:
                return 1
            if t[1]:
                return 0
            raise Undecided('bits compared')
        if pred[0] == 's':
            a, b = (x - (1 << w) if x >> (w - 1) else x for x in (a, b))
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])

    # -- control
    def call(self, f, args, depth=0):
        if f in self.hooks:
            return self.hooks[f](self, args)
        F = self.m.functions.get(f)
        if F is None or F.decl:
            if f.startswith('llvm.dbg') or f.startswith('llvm.lifetime'):
                return None
            if f.startswith('llvm.fabs'):
                v = args[0]
                if isinstance(v, float):
                    return abs(v)
                lo, hi = v.range()
                if lo >= 0:
                    return v
                if hi <= 0:
                    return scale2(v, 0, -1)
                s = self.choose([v], [1, -1], 'sign')
                return scale2(v, 0, s)
            raise Undecided('call of %s' % f)
        if depth > 60:
            raise Undecided('recursion too deep')
        stack = self.active
        if sum(1 for g, v in stack if g == f and len(v) == len(args) and all(const_eq(x, y) for x, y in zip(v, args))) > 20:
            raise Wrong('%s calls itself for ever with the same arguments %s' % (f, ', '.join(repr(a) for a in args if isinstance(a, (int, float)))))
        self.fns.add(f)
        env = {}
        for A, v in zip(F.args, args):
            env[A] = v

        def val(o):
            if hasattr(o, 'kind') and hasattr(o, 'extra'):
                return self.const(o)
            return env[o]

        def num(o):
            v = val(o)
            return bits_double(v) if isinstance(v, Bits) else v
        B, prev = F.blocks[0], None
        while True:
            phis = []
            for ins in B.insts:
                if ins.op != 'phi':
                    break
                for v, p in ins.incoming:
                    if p is prev:
                        phis.append((ins, val(v)))
                        break
            for ins, v in phis:
                env[ins] = v
            for ins in B.insts[len(phis):]:
                self.fuel -= 1
                if self.fuel < 0:
                    raise Undecided('too long')
                op = ins.op
                if op != 'call' and ins.ops:
                    po = [v for v in (env.get(o) for o in ins.ops) if isinstance(v, Poison)]
                    if po and op == 'select' and not isinstance(env.get(ins.ops[0]), Poison):
                        po = []
                    if po:
                        if op in ('br', 'switch', 'ret', 'store', 'load'):
                            self.notes.append(('fptoint', po[0].ins, po[0].text))
                            raise Undecided('undefined conversion')
                        env[ins] = po[0]
                        continue
                if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                    env[ins] = self.fop(op, num(ins.ops[0]), num(ins.ops[1]), ins)
                elif op == 'fneg':
                    v = num(ins.ops[0])
                    env[ins] = -v if isinstance(v, float) else scale2(v, 0, -1)
                elif op == 'fcmp':
                    env[ins] = self.fcmp(ins.pred, num(ins.ops[0]), num(ins.ops[1]), ins)
                elif op == 'icmp':
                    env[ins] = self.icmp(ins.pred, val(ins.ops[0]), val(ins.ops[1]), ins.ops[0].ty.bits, ins)
                elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
                    env[ins] = self.iop(op, val(ins.ops[0]), val(ins.ops[1]), ins.ty.bits, ins)
                elif op in ('fptoui', 'fptosi'):
                    env[ins] = self.toint(num(ins.ops[0]), ins.ty.bits, op == 'fptosi', ins)
                elif op in ('uitofp', 'sitofp'):
                    v = val(ins.ops[0])
                    if not isinstance(v, int):
                        raise Undecided('conversion of unknown bits')
                    w = ins.ops[0].ty.bits
                    if op == 'sitofp' and v >> (w - 1):
                        v -= 1 << w
                    env[ins] = float(v)
                elif op in ('zext', 'sext', 'trunc'):
                    v = val(ins.ops[0])
                    w, n = ins.ops[0].ty.bits, ins.ty.bits
                    if isinstance(v, int):
                        if op == 'sext' and v >> (w - 1):
                            v -= 1 << w
                        env[ins] = v & ((1 << n) - 1)
                    elif isinstance(v, Bits):
                        x = list(v.b)
                        x = x[:n] if op == 'trunc' else x + [x[-1] if op == 'sext' else 0] * (n - w)
                        env[ins] = bits_int_(Bits(n, x, v.src))
                    else:
                        raise Undecided(op)
                elif op == 'ptrtoint':
                    v = val(ins.ops[0])
                    env[ins] = 0 if v == ('null',) else ('i',) + v
                elif op == 'inttoptr':
                    v = val(ins.ops[0])
                    if v == 0:
                        env[ins] = ('null',)
                    elif isinstance(v, tuple) and v[0] == 'i':
                        env[ins] = v[1:]
                    else:
                        raise Undecided('integer used as pointer')
                elif op == 'freeze':
                    env[ins] = val(ins.ops[0])
                elif op == 'bitcast':
                    v = val(ins.ops[0])
                    if ins.ty.kind == 'double':
                        env[ins] = v if isinstance(v, Bits) else bits_double(v)      # bits: a double not looked at yet
                    elif ins.ops[0].ty.kind == 'double':
                        env[ins] = v if isinstance(v, Bits) else bits_int_(double_bits(v))
                    else:
                        env[ins] = v
                elif op == 'select':
                    c = val(ins.ops[0])
                    env[ins] = val(ins.ops[1] if c else ins.ops[2])
                elif op == 'alloca':
                    env[ins] = self.obj()
                elif op == 'load':
                    env[ins] = self.load(val(ins.ops[0]), ins.ty)
                elif op == 'store':
                    self.store(val(ins.ops[1]), val(ins.ops[0]))
                elif op == 'getelementptr':
                    env[ins] = self.gep(val(ins.ops[0]), ins.gep, [val(o) for o in ins.ops[1:]], [o.ty.bits for o in ins.ops[1:]])
                elif op == 'call':
                    cal = ins.callee
                    t = ('f', cal.v) if getattr(cal, 'kind', None) == 'func' else val(cal)
                    if t[0] == 'null':
                        raise Wrong('a null function is called at %s' % loc(ins))
                    if t[0] != 'f':
                        raise Undecided('call through %r' % (t,))
                    if t[1].startswith('llvm.dbg'):
                        continue
                    av = [val(o) for o in ins.ops]
                    for v in av:
                        if isinstance(v, Poison):
                            self.notes.append(('fptoint', v.ins, v.text))
                            raise Undecided('undefined conversion')
                    self.active.append((t[1], av))
                    env[ins] = self.call(t[1], av, depth + 1)
                    self.active.pop()
                elif op == 'br':
                    prev = B
                    if len(ins.succs) == 2:
                        c = val(ins.ops[0])
                        if c is None:
                            raise Undecided('undefined branch')
                        B = ins.succs[0] if c else ins.succs[1]
                    else:
                        B = ins.succs[0]
                    break
                elif op == 'switch':
                    prev = B
                    c = val(ins.ops[0])
                    if not isinstance(c, int):
                        raise Undecided('switch')
                    B2 = ins.succs[0]
                    for k, o in enumerate(ins.ops[1:]):
                        if self.const(o) == c:
                            B2 = ins.succs[k + 1]
                    B = B2
                    break
                elif op == 'ret':
                    if not ins.ops:
                        return None
                    return num(ins.ops[0]) if ins.ops[0].ty.kind == 'double' else val(ins.ops[0])
                else:
                    raise Undecided('instruction %s' % op)
            else:
                raise Undecided('fell off a block')


def bits_int_(x):
    return bits_int(x) if isinstance(x, Bits) else x


# -- exact functions as Taylor models over a box

def true_exp(lo, hi):
    import mpmath
    lo, hi = Fr(lo), Fr(hi)
    c, h = (lo + hi) / 2, (hi - lo) / 2
    with mpmath.workdps(50):
        e = mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)
        m, x = mpmath.frexp(e)
        m = float(m)
    hf = float(h)
    co = np.zeros(N)
    t = 1.0
    for k in range(N):
        co[k] = t
        t *= hf / (k + 1)
    err = t * 2 * math.exp(hf) + 1e-15 * float(np.sum(np.abs(co)))
    return V(int(x), co * m, err)


def true_log(lo, hi):
    import mpmath
    lo, hi = Fr(lo), Fr(hi)
    c, h = (lo + hi) / 2, (hi - lo) / 2
    with mpmath.workdps(50):
        l = float(mpmath.log(mpmath.mpf(c.numerator) / c.denominator))
    r = float(h / c)
    co = np.zeros(N)
    co[0] = l
    for k in range(1, N):
        co[k] = (-1) ** (k + 1) * r ** k / k
    err = r ** N / (1 - r) + 4e-16 * float(np.sum(np.abs(co)))
    return V(0, co, err)


def explore(m, f, lo, hi, judge, mk=None, tiny=2.0 ** -46, depth=0, out=None, st=None, maxboxes=4000, deadline=None):
    """judge(result, lo, hi, interp) -> ('ok'|'bad'|'split'|'und', text) on every box of a partition of [lo, hi]"""
    if out is None:
        out = []
    if st is None:
        st = {'boxes': 0, 'fns': set()}
    # widest box first
    import heapq
    work = [(-(Fr(hi) - Fr(lo)), Fr(lo), Fr(hi), 0)]
    while work:
        _, lo, hi, depth = heapq.heappop(work)
        st['boxes'] += 1
        late = deadline is not None and time.time() > deadline
        if st['boxes'] > maxboxes or late:
            out.append(('und', 'out of time' if late else 'too many boxes', lo, hi))
            return out, st
        m_ = max(abs(lo), abs(hi))
        small = (hi - lo) <= m_ * Fr(tiny)
        scripts = [[]]
        cut = None
        res = []
        while scripts:
            sc = scripts.pop()
            it = Interp(m, tiny=small, script=sc)
            x = box(lo, hi)
            try:
                r = it.call(f, [x] if mk is None else mk(it, x))
                st['fns'] |= it.fns
                j = judge(r, lo, hi, it)
                if j[0] == 'split' and not small:
                    cut = []
                    break
                res.append(('und', j[1]) if j[0] == 'split' else j)
            except Split as s:
                st['fns'] |= it.fns
                if small:
                    res.append(('und', 'cannot be cut further: %s' % s.why))
                else:
                    cut = s.ts
                    break
            except Undecided as u:
                st['fns'] |= it.fns
                if it.notes:
                    res.append(('bad', it.notes[0][2] + ' (%s)' % loc(it.notes[0][1])))
                else:
                    res.append(('und', str(u)))
            if len(it.alts) and len(res) < 64:
                for pos, opts in it.alts:
                    for o in opts:
                        scripts.append(it.script[:pos] + [o])
        if cut is None:
            # several scripts: the ambiguity is in the analysis, so a wrong outcome of one of them is not definite
            amb = len(res) > 1
            for r in res:
                out.append((('und' if amb and r[0] == 'bad' else r[0]), r[1], lo, hi))
            if out[-1][0] == 'bad':
                return out, st
            continue
        if depth > 60:
            out.append(('und', 'cut too often', lo, hi))
            continue
        c, h = (lo + hi) / 2, (hi - lo) / 2
        d = m_ * Fr(tiny) / 4
        pts = [lo]
        for t in sorted(cut):
            p = c + h * Fr(t)
            a, b = p - d, p + d
            if a > pts[-1] and b < hi:
                pts += [a, b]
        if len(pts) == 1:
            pts.append(c)
        pts.append(hi)
        pts = [Fr(lo)] + [as_double(p) for p in pts[1:-1]] + [Fr(hi)]
        for a, b in zip(pts, pts[1:]):
            if b > a:
                heapq.heappush(work, (a - b, a, b, depth + 1))
    return out, st


def as_double(p):
    try:
        return Fr(float(p)) if abs(p) > Fr(2) ** -1000 else p
    except OverflowError:
        return p


def const_eq(x, y):
    """the same constant (or pointer)"""
    if isinstance(x, float) and isinstance(y, float):
        return x == y or x != x and y != y
    return type(x) is type(y) and isinstance(x, (int, tuple)) and x == y


def loc(ins):
    import os
    return '%s:%s in %s' % (os.path.basename(ins.file or '?'), ins.line, ins.fn.name)
