"""P17: every loop of the library ends.

Discharge: a ranking argument per loop - a counter of the loop (integer or pointer) that moves in one direction on every way
round and is compared, on every way round, with a value that does not change in the loop (or a counter that runs through an
object of fixed length, whose bounds P16 decides).
Violation: no way out; every way out depends on nothing that changes; a way round that changes nothing; a counter that cannot
represent its limit; a special number (NaN, infinity) that keeps the loop going and reproduces itself."""
import math
from sa.harness import *
from sa.ir import Const, Arg, Inst
from sa.engine import where
from sa.effects import Effects

PURE = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'fcmp', 'select', 'zext', 'sext',
        'trunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi',
        'fptoui', 'fptrunc', 'fpext', 'freeze', 'frem'}
DBG = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume')


def isdbg(i):
    return i.op == 'call' and isinstance(i.callee, Const) and i.callee.kind == 'func' and i.callee.v.startswith(DBG)


def dominators(F):
    n = len(F.blocks)
    full = set(range(n))
    dom = [set(full) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in F.blocks[1:]:
            ps = [dom[p.idx] for p in b.preds]
            d = (set.intersection(*ps) if ps else set()) | {b.idx}
            if d != dom[b.idx]:
                dom[b.idx] = d
                ch = True
    return dom


class LoopInfo:
    def __init__(self, E, F, L, dom):
        self.E, self.F, self.L, self.dom = E, F, L, dom
        self.bl = [b for b in F.blocks if b.idx in L.blocks]
        self.phis = [i for i in L.header.insts if i.op == 'phi']
        self.exits = []          # (block, successor)
        self.leaves = False      # a return or trap inside
        for b in self.bl:
            t = b.insts[-1]
            for s in (t.succs or []):
                if s.idx not in L.blocks:
                    self.exits.append((b, s))
            if not t.succs:
                self.leaves = True
        self.writes = [i for b in self.bl for i in b.insts if i.op == 'store' or (i.op == 'call' and not isdbg(i) and self.writer(i))]
        self.every = [b for b in self.bl if all(b.idx in dom[l.idx] for l in L.latches)]

    def writer(self, c):
        """may the call write memory?"""
        if isinstance(c.callee, Const) and c.callee.kind == 'func':
            s = self.E.sum.get(c.callee.v)
            if s is not None:
                return bool([p for (p, _) in s['writes'] if p[0] not in ('local', 'heap')]) or bool(s['ext'])
            return not c.callee.v.startswith('llvm.')
        return True

    def invariant(self, v, depth=0):
        """the value is the same in every round"""
        if isinstance(v, (Const, Arg)):
            return True
        if v.block.idx not in self.L.blocks:
            return True
        if depth > 12:
            return False
        if v.op in PURE:
            return all(self.invariant(o, depth + 1) for o in v.ops)
        if v.op == 'load':
            return self.invariant(v.ops[0], depth + 1) and not any(self.clobbers(w, v) for w in self.writes)
        if v.op == 'call' and not isdbg(v):
            # a function of unchanged arguments and of memory the loop does not write
            return isinstance(v.callee, Const) and v.callee.kind == 'func' and v.callee.v in self.E.sum and not self.writer(v) \
                and all(self.invariant(o, depth + 1) for o in v.ops) and not self.writes
        return False

    def clobbers(self, w, ld):
        if w.op != 'store':
            if isinstance(w.callee, Const) and w.callee.kind == 'func' and w.callee.v in self.E.sum:
                a = base(ld.ops[0])
                # a callee writes what its arguments reach
                return isinstance(a, Inst) and a.op == 'alloca' and any(base(o) is a for o in w.ops) or not (isinstance(a, Inst) and a.op == 'alloca')
            return not local(ld.ops[0])
        if kindof(w.ops[0]) != kindof(ld):
            return False          # stores of another type (a double never overwrites a count)
        a, b = base(w.ops[1]), base(ld.ops[0])
        if a is not b and (local(w.ops[1]) or local(ld.ops[0])):
            return False
        if same_addr(w.ops[1], ld.ops[0]) is False:
            return False
        return True

    def steps(self, phi):
        """changes of the phi over the ways round: list of ints, or None"""
        out = []
        for v, b in phi.incoming:
            if b.idx in self.L.blocks:
                r = self.delta(v, phi, 0, set())
                if r is None:
                    return None
                out += r
        return sorted(set(out))

    def delta(self, v, phi, depth, seen):
        if v is phi:
            return [0]
        if depth > 16 or not isinstance(v, Inst) or v.block.idx not in self.L.blocks:
            return None
        if v.op in ('add', 'sub'):
            a, c = v.ops
            if isinstance(a, Const) and v.op == 'add':
                a, c = c, a
            if isinstance(c, Const) and c.kind == 'int':
                k = c.v
                if k >= 1 << (c.ty.bits - 1):
                    k -= 1 << c.ty.bits
                r = self.delta(a, phi, depth + 1, seen)
                return None if r is None else [x + (k if v.op == 'add' else -k) for x in r]
            return None
        if v.op == 'getelementptr' and len(v.ops) == 2 and isinstance(v.ops[1], Const) and v.ops[1].kind == 'int':
            k = v.ops[1].v
            if k >= 1 << (v.ops[1].ty.bits - 1):
                k -= 1 << v.ops[1].ty.bits
            r = self.delta(v.ops[0], phi, depth + 1, seen)
            return None if r is None else [x + k for x in r]
        if v.op in ('phi', 'select'):
            if v.id in seen:
                return []
            seen = seen | {v.id}
            ops = v.ops if v.op == 'phi' else v.ops[1:]
            if v.op == 'phi' and v.block.loop is not self.L and v.block.loop is not None and v is not phi:
                if v.block is v.block.loop.header:
                    # an inner loop: its own changes come in any number
                    acc = []
                    for o in ops:
                        r = self.delta(o, phi, depth + 1, seen)
                        if r is None:
                            return None
                        acc += r
                    return acc
            acc = []
            for o in ops:
                r = self.delta(o, phi, depth + 1, seen)
                if r is None:
                    return None
                acc += r
            return acc
        if v.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.delta(v.ops[0], phi, depth + 1, seen)
        return None


def kindof(v):
    t = v.ty
    return t.kind, t.bits


def base(p):
    while isinstance(p, Inst) and p.op in ('getelementptr', 'bitcast'):
        p = p.ops[0]
    return p


def local(p):
    b = base(p)
    return isinstance(b, Inst) and b.op == 'alloca'


def same_addr(p, q):
    """False when the two addresses are different constant fields of the same object"""
    if isinstance(p, Inst) and isinstance(q, Inst) and p.op == q.op == 'getelementptr' and p.ops[0] is q.ops[0] and len(p.ops) == len(q.ops):
        for a, b in zip(p.ops[1:], q.ops[1:]):
            if isinstance(a, Const) and isinstance(b, Const) and a.kind == b.kind == 'int' and a.v != b.v:
                return False
    return None


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
SWP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def conds(v, want, out, depth=0):
    """comparisons that all hold when v is `want`"""
    if depth > 6 or not isinstance(v, Inst):
        return
    if v.op in ('icmp', 'fcmp'):
        out.append((v, want))
    elif v.op == 'xor' and isinstance(v.ops[1], Const) and v.ops[1].kind == 'int' and v.ops[1].v == 1:
        conds(v.ops[0], not want, out, depth + 1)
    elif v.op == 'and' and want or v.op == 'or' and not want:
        conds(v.ops[0], want, out, depth + 1)
        conds(v.ops[1], want, out, depth + 1)
    elif v.op == 'select':
        c, a, b = v.ops
        if want and isinstance(b, Const) and b.kind == 'int' and b.v == 0:      # c && a
            conds(c, True, out, depth + 1)
            conds(a, True, out, depth + 1)
        elif not want and isinstance(a, Const) and a.kind == 'int' and a.v == 1:    # !(c || b)
            conds(c, False, out, depth + 1)
            conds(b, False, out, depth + 1)
    elif v.op == 'phi' and v.ty.bits == 1:
        # short-circuit: false from one side, the second condition from the other
        cs = [(o, b) for o, b in v.incoming]
        const = [(o, b) for o, b in cs if isinstance(o, Const) and o.kind == 'int']
        rest = [(o, b) for o, b in cs if not (isinstance(o, Const) and o.kind == 'int')]
        if len(rest) == 1 and const and all(bool(o.v) != want for o, _ in const):
            conds(rest[0][0], want, out, depth + 1)
            for o, b in const:
                t = b.insts[-1]
                if t.op == 'br' and len(t.succs) == 2:
                    other = rest[0][1]
                    if t.succs[0] is v.block:
                        conds(t.ops[0], False, out, depth + 1)
                    elif t.succs[1] is v.block:
                        conds(t.ops[0], True, out, depth + 1)


def strip(v):
    """(inner value, narrowest width on the way)"""
    w = None
    ext = None
    while isinstance(v, Inst) and v.op in ('zext', 'sext', 'freeze', 'ptrtoint'):
        if v.op in ('zext', 'sext'):
            w = v.ops[0].ty.bits
            ext = v.op
        v = v.ops[0]
    return v, w, ext


def counter_of(I, v):
    """(phi, offset) when the value is a phi of the header plus a constant"""
    for phi in I.phis:
        if phi.ty.kind not in ('int', 'ptr'):
            continue
        r = I.delta(v, phi, 0, set()) if isinstance(v, Inst) and v.block.idx in I.L.blocks else None
        if r and len(set(r)) == 1:
            return phi, r[0]
    return None


def ranking(I):
    """('ok', text) | ('bad', inst, text) | None"""
    note = None
    for b in I.every:
        t = b.insts[-1]
        if t.op != 'br' or len(t.succs) != 2:
            continue
        ins = [s.idx in I.L.blocks for s in t.succs]
        if all(ins) or not any(ins):
            continue
        cs = []
        conds(t.ops[0], ins[0], cs)      # all hold when the loop goes on
        for c, want in cs:
            if c.op != 'icmp':
                continue
            pred = c.pred if want else NEG[c.pred]
            for x, y, p in ((c.ops[0], c.ops[1], pred), (c.ops[1], c.ops[0], SWP[pred])):
                xi, w, ext = strip(x)
                cn = counter_of(I, xi)
                if cn is None or not I.invariant(y):
                    continue
                phi, off = cn
                st = I.steps(phi)
                if not st or 0 in st or (st[0] < 0 < st[-1]):
                    continue
                up = st[0] > 0
                if w is not None and w < x.ty.bits and up and ext == 'zext' and p in ('ult', 'ne', 'ule', 'slt', 'sle'):
                    yi, yw, _ = strip(y)
                    if not (isinstance(y, Const) and y.kind == 'int' and y.v < (1 << w) - 1) and not (yw is not None and yw <= w) and not small(y, w):
                        if p in ('ult', 'ule', 'ne'):
                            return 'bad', c, 'the counter has %d bits, its limit %d: with a larger limit the loop never ends' % (w, x.ty.bits)
                if up and p in ('ult', 'slt', 'ule', 'sle') or not up and p in ('ugt', 'sgt', 'sge') or \
                        (not up and p == 'uge' and isinstance(y, Const) and y.kind == 'int' and y.v > 0) or p == 'ne' and set(map(abs, st)) == {1} or p == 'ne' and phi.ty.kind == 'ptr':
                    return 'ok', 'counter %s moves by %s, the loop goes on while it is %s an unchanged value' % (phi.name or '#%d' % phi.id, st, p)
                if p == 'eq':
                    return 'ok', 'the loop goes on only while a moving counter equals an unchanged value'
                if up and p in ('ugt', 'uge', 'sgt', 'sge') or not up and p in ('ult', 'ule', 'slt', 'sle'):
                    note = ('away', c, 'the counter moves by %s, away from its limit' % st)
    # a counter that walks through an object of fixed length
    for b in I.every:
        for i in b.insts:
            if i.op == 'load' and isinstance(i.ops[0], Inst) and i.ops[0].op == 'getelementptr':
                for o in i.ops[0].ops[1:]:
                    xi, w, ext = strip(o)
                    cn = counter_of(I, xi)
                    if cn and I.invariant(i.ops[0].ops[0]):
                        st = I.steps(cn[0])
                        if st and 0 not in st and not (st[0] < 0 < st[-1]):
                            return 'ok', 'counter %s indexes an object in every round (its bounds are decided by P16)' % (cn[0].name or cn[0].id)
                if any(p is i.ops[0] for p in I.phis):
                    pass
            if i.op == 'load' and i.ops[0] in I.phis:
                st = I.steps(i.ops[0])
                if st and 0 not in st and not (st[0] < 0 < st[-1]):
                    return 'ok', 'pointer %s runs through an object (its bounds are decided by P16)' % (i.ops[0].name or i.ops[0].id)
    return None


def never(I, x):
    """the way out at the end of the block is never taken"""
    t = x.insts[-1]
    if t.op != 'br' or len(t.succs) != 2 or not isinstance(t.ops[0], Inst) or t.ops[0].op != 'icmp':
        return False
    c = t.ops[0]
    p = c.pred if t.succs[0].idx in I.L.blocks else NEG[c.pred]
    z = [isinstance(o, Const) and o.kind == 'int' and o.v == 0 for o in c.ops]
    return p == 'uge' and z[1] or p == 'ule' and z[0]


def small(y, w):
    if isinstance(y, Inst) and y.op == 'and' and any(isinstance(o, Const) and o.kind == 'int' and o.v < (1 << w) for o in y.ops):
        return True
    if isinstance(y, Inst) and y.op == 'urem' and isinstance(y.ops[1], Const) and y.ops[1].v <= (1 << w):
        return True
    if isinstance(y, Inst) and y.op == 'lshr' and isinstance(y.ops[1], Const) and y.ops[1].v >= y.ty.bits - w:
        return True
    if isinstance(y, Inst) and y.op in ('select', 'phi'):
        return all(small(o, w) or (isinstance(o, Const) and o.kind == 'int' and o.v < (1 << w) - 1) for o in (y.ops[1:] if y.op == 'select' else y.ops) if o is not y)
    return False


# ---------------------------------------------------------------- ways round that change nothing
def idle_way(I):
    """a way round the loop that writes nothing and gives every phi its own value back"""
    if any(b.loop is not I.L for b in I.bl):
        inner = True
    found = []
    n = [0]

    def go(b, prev, path, env, known):
        n[0] += 1
        if n[0] > 3000 or found:
            return
        e = dict(env)
        for i in b.insts:
            if i.op == 'phi' and b is not I.L.header:
                v = next((v for v, p in i.incoming if p is prev), None)
                e[i.id] = res(v, e)
            elif i.op == 'store' or (i.op == 'call' and not isdbg(i) and I.writer(i)):
                return
        t = b.insts[-1]
        for k, s in enumerate(t.succs or []):
            kn = known
            if t.op == 'br' and len(t.succs) == 2:
                c = res(t.ops[0], e)
                if isinstance(c, Const) and c.kind == 'int':
                    if bool(c.v) != (k == 0):
                        continue
                else:
                    key = c.id if isinstance(c, Inst) else id(c)
                    if key in kn and kn[key] != (k == 0):
                        continue
                    kn = dict(kn)
                    kn[key] = k == 0
                    # the opposite comparison of the same operands
            if s is I.L.header:
                if all(res(next(v for v, p in i.incoming if p is b), e) is i for i in I.phis):
                    found.append(path + [b])
                    return
                continue
            if s.idx not in I.L.blocks or s in path:
                continue
            go(s, b, path + [b], e, kn)

    def res(v, e):
        while isinstance(v, Inst) and v.id in e:
            w = e[v.id]
            if w is v:
                break
            v = w
        return v
    go(I.L.header, None, [], {}, {})
    return found[0] if found else None


# ---------------------------------------------------------------- special numbers
def feval(op, a, b=None):
    try:
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if b == 0:
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            return a / b
        if op == 'fneg':
            return -a
    except OverflowError:
        return None
    return None


def fcmp(p, a, b):
    un = a != a or b != b
    if p == 'ord':
        return not un
    if p == 'uno':
        return un
    if p in ('true', 'false'):
        return p == 'true'
    if un:
        return p[0] == 'u'
    q = p[1:]
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]


class Special:
    """conditional constant propagation over the special numbers from the entry of the function; unknown = None"""

    def __init__(self, F, source, depth=0):
        self.F, self.source, self.depth = F, source, depth
        self.val = {}
        self.edges = set()
        self.run()

    def get(self, v):
        if isinstance(v, Const):
            if v.kind == 'fp':
                return ('c', v.v)
            if v.kind == 'int' and v.ty.bits == 1:
                return ('b', bool(v.v))
            if v.kind == 'int':
                return ('i', v.v)
            return None
        if isinstance(v, Arg):
            r = self.source(v)
            return None if r is None else ('c', r)
        return self.val.get(v.id, 'top')

    def run(self):
        F = self.F
        work = [F.blocks[0]]
        reached = {0}
        for rnd in range(60):
            ch = False
            for b in F.blocks:
                if b.idx not in reached:
                    continue
                for i in b.insts:
                    n = self.inst(i, b)
                    if i.op in ('br', 'switch'):
                        for s in n:
                            if (b.idx, s.idx) not in self.edges:
                                self.edges.add((b.idx, s.idx))
                                reached.add(s.idx)
                                ch = True
                        continue
                    if n == 'top':
                        continue
                    o = self.val.get(i.id, 'top')
                    n = n if o == 'top' or eqv(o, n) else None
                    if o == 'top' or not eqv(o, n):
                        self.val[i.id] = n
                        ch = True
            if not ch:
                break
        self.reached = reached

    def inst(self, i, b):
        op = i.op
        if op == 'br':
            if len(i.succs) == 1:
                return i.succs
            c = self.get(i.ops[0])
            if c == 'top':
                return []
            if c is not None and c[0] == 'b':
                return [i.succs[0 if c[1] else 1]]
            return i.succs
        if op == 'switch':
            return i.succs
        if op == 'phi':
            vs = [self.get(v) for v, p in i.incoming if (p.idx, b.idx) in self.edges]
            vs = [v for v in vs if v != 'top']
            if not vs:
                return 'top'
            r = vs[0]
            for v in vs[1:]:
                if not eqv(r, v):
                    return None
            return r
        if op == 'select':
            c = self.get(i.ops[0])
            if c == 'top':
                return 'top'
            a, d = self.get(i.ops[1]), self.get(i.ops[2])
            if c is not None:
                return a if c[1] else d
            if a == 'top' or d == 'top':
                return 'top'
            return a if eqv(a, d) else None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, d = self.get(i.ops[0]), self.get(i.ops[1])
            if a == 'top' or d == 'top':
                return 'top'
            if a is not None and a[1] != a[1] or d is not None and d[1] != d[1]:
                return ('c', math.nan)
            if a is None or d is None:
                return None
            r = feval(op, a[1], d[1])
            return None if r is None else ('c', r)
        if op == 'fneg':
            a = self.get(i.ops[0])
            if a == 'top' or a is None:
                return a
            return ('c', -a[1])
        if op == 'fcmp':
            a, d = self.get(i.ops[0]), self.get(i.ops[1])
            if a == 'top' or d == 'top':
                return 'top'
            if a is not None and a[0] == 'c' and a[1] != a[1] or d is not None and d[0] == 'c' and d[1] != d[1]:
                return ('b', fcmp(i.pred, math.nan, 0.0))
            if a is None or d is None:
                return None
            return ('b', fcmp(i.pred, a[1], d[1]))
        if op in ('and', 'or', 'xor') and i.ty.kind == 'int' and i.ty.bits == 1:
            a, d = self.get(i.ops[0]), self.get(i.ops[1])
            if op != 'xor':
                z = op == 'or'
                if any(x not in ('top', None) and x[1] == z for x in (a, d)):
                    return ('b', z)
            if a == 'top' or d == 'top':
                return 'top'
            if a is None or d is None:
                return None
            return ('b', (a[1] and d[1]) if op == 'and' else (a[1] or d[1]) if op == 'or' else a[1] != d[1])
        if op == 'call' and isinstance(i.callee, Const) and i.callee.kind == 'func' and i.callee.v.startswith('llvm.fabs'):
            a = self.get(i.ops[0])
            return a if a in ('top', None) else ('c', abs(a[1]))
        if op == 'call' and isinstance(i.callee, Const) and i.callee.kind == 'func' and self.depth < 3:
            G = self.F.module.functions.get(i.callee.v) if self.F.module else None
            if G is not None and not G.decl and len(G.args) == len(i.ops) and (i.ty.kind == 'double' or i.ty.kind == 'int'):
                av = [self.get(o) if not isinstance(o, Const) or o.kind == 'fp' else None for o in i.ops]
                if 'top' in av:
                    return 'top'
                if any(a is not None and a[0] == 'c' for a in av):
                    S = Special(G, lambda v: av[v.index][1] if isinstance(v, Arg) and av[v.index] is not None and av[v.index][0] == 'c' else None, self.depth + 1)
                    rs = [S.get(x.insts[-1].ops[0]) for x in G.blocks if x.idx in S.reached and x.insts[-1].op == 'ret' and x.insts[-1].ops]
                    if rs and all(eqv(r, rs[0]) for r in rs) and rs[0] not in ('top', None):
                        return rs[0]
                    return None
        if i.ty.kind == 'double':
            r = self.source(i)
            return None if r is None else ('c', r)
        if op in ('add', 'sub') and i.ty.kind == 'int':
            a, d = self.get(i.ops[0]), self.get(i.ops[1])
            if a == 'top' or d == 'top':
                return 'top'
            if a is not None and d is not None and a[0] == d[0] == 'i':
                return ('i', (a[1] + d[1] if op == 'add' else a[1] - d[1]) % (1 << i.ty.bits))
            return None
        if op == 'load' and i.ty.kind == 'int' and isinstance(i.ops[0], Const) and i.ops[0].kind == 'global':
            g = self.F.module.globals.get(i.ops[0].v) if self.F.module else None
            if g is not None and g.const and isinstance(g.init, Const) and g.init.kind == 'int':
                return ('i', g.init.v % (1 << i.ty.bits))
            return None
        if op == 'icmp':
            a, d = self.get(i.ops[0]), self.get(i.ops[1])
            if a == 'top' or d == 'top':
                return 'top'
            if a is not None and d is not None and a[0] == d[0] == 'i':
                w = i.ops[0].ty.bits
                x, y = a[1], d[1]
                if i.pred[0] == 's':
                    x, y = [z - (1 << w) if z >= 1 << (w - 1) else z for z in (x, y)]
                return ('b', {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[i.pred[-2:]])
        if op in ('zext', 'sext', 'trunc') or op == 'icmp':
            # booleans widened and tested again
            if op == 'icmp' and isinstance(i.ops[1], Const) and i.ops[1].kind == 'int' and i.ops[1].v == 0 and i.pred in ('ne', 'eq'):
                a = self.get(i.ops[0]) if isinstance(i.ops[0], Inst) else None
                if a == 'top':
                    return 'top'
                if a is not None and a[0] == 'b':
                    return ('b', a[1] == (i.pred == 'ne'))
                return None
            if op == 'zext':
                a = self.get(i.ops[0]) if isinstance(i.ops[0], Inst) else None
                return a if a == 'top' or (a is not None and a[0] == 'b') else None
            return None
        return None


def eqv(a, b):
    if a is None or b is None or a == 'top' or b == 'top':
        return a is b or a == b
    if a[0] != b[0]:
        return False
    if a[0] == 'c':
        return (a[1] == b[1] and math.copysign(1, a[1]) == math.copysign(1, b[1])) or (a[1] != a[1] and b[1] != b[1])
    return a[1] == b[1]


def special(I):
    """a special number from which the loop has no way out"""
    F = I.F
    fa = [a for a in F.args if a.ty.kind == 'double']
    srcs = []
    for nm, x in (('NaN', math.nan), ('infinity', math.inf), ('-infinity', -math.inf)):
        for a in fa:
            srcs.append(('%s given for %s' % (nm, a.name), lambda v, a=a, x=x: x if v is a else None))
        if nm == 'NaN' or True:
            srcs.append(('%s read or returned by the given function' % nm,
                         lambda v, x=x: x if isinstance(v, Inst) and (v.op == 'call' and not (isinstance(v.callee, Const) and v.callee.kind == 'func')) else None))
            srcs.append(('%s stored in the data' % nm, lambda v, x=x: x if isinstance(v, Inst) and v.op == 'load' else None))
    srcs.append(('NaN given for every number', lambda v: math.nan if isinstance(v, Arg) and v.ty.kind == 'double' or
                 isinstance(v, Inst) and v.op == 'call' and not (isinstance(v.callee, Const) and v.callee.kind == 'func') else None))
    for text, src in srcs:
        S = Special(F, src)
        if I.L.header.idx not in S.reached:
            continue
        if any((b.idx, s.idx) in S.edges for b, s in I.exits):
            continue
        if any(not b.insts[-1].succs and b.idx in S.reached for b in I.bl):
            continue
        if not any((l.idx, I.L.header.idx) in S.edges for l in I.L.latches):
            continue
        # the loop is entered and never left; the entry must really depend on the special number
        if any(eqv(S.val.get(i.id), ('c', x)) for b in I.bl for i in b.insts if i.ty.kind == 'double' for x in (math.nan, math.inf, -math.inf)):
            return text
    return None


def p17(ctx, b, tier):
    b.rule('loop', 'every loop has a counter that moves towards an unchanged limit in every round, or runs through an object of fixed length')
    b.rule('recursion', 'no function of the library calls itself, directly or not')
    E = Effects(ctx.m)
    ctx.need('spot_step', 'spot_fit')
    for F in ctx.m.defined:
        b.cov['functions'].add(F.name)
        if not F.loops:
            continue
        dom = dominators(F)
        for L in F.loops:
            I = LoopInfo(E, F, L, dom)
            t = next((i for i in L.header.insts if i.line and i.op != 'phi'), L.header.insts[-1])
            w = where(t)
            if not I.exits and not I.leaves:
                b.bad('loop', w, 'the loop has no way out')
                continue
            r = ranking(I)
            if r and r[0] == 'ok':
                b.ok('loop', w, r[1])
                continue
            if r and r[0] == 'bad':
                b.bad('loop', where(r[1]), r[2])
                continue
            if not I.leaves and I.exits and all(not x.insts[-1].ops or I.invariant(x.insts[-1].ops[0]) for x, _ in I.exits):
                b.bad('loop', w, 'nothing that decides the way out of the loop changes in a round')
                continue
            if not I.leaves and I.exits and all(never(I, x) for x, _ in I.exits):
                b.bad('loop', w, 'the condition of the loop is always true')
                continue
            p = idle_way(I)
            if p:
                ln = sorted({i.line for x in p for i in x.insts if i.line and not isdbg(i)})
                b.bad('loop', w, 'a way round the loop (lines %s) changes nothing: it is repeated for ever' % ', '.join(map(str, ln[:8])))
                continue
            s = special(I)
            if s:
                b.bad('loop', w, 'with %s the loop never ends' % s)
                continue
            b.und('loop', w, 'no ranking argument found')
    b.cov['loops'] = {f.name: len(f.loops) for f in ctx.m.defined if f.loops}
    # recursion
    for F in ctx.m.defined:
        seen, work = set(), [c for c in direct(F)]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            G = ctx.m.functions.get(x)
            if G is not None and not G.decl:
                work += direct(G)
        if F.name not in seen:
            b.ok('recursion', F.name)
            continue
        # a way in which a call of itself cannot be avoided
        rec = [i for x in F.blocks for i in x.insts if i.op == 'call' and isinstance(i.callee, Const) and i.callee.kind == 'func' and i.callee.v == F.name]
        if not rec:
            b.und('recursion', F.name, 'calls itself through another function')
            continue
        ends = reach_without(F, {i.block.idx for i in rec})
        if not ends:
            b.bad('recursion', where(rec[0]), 'every path calls the function again')
            continue
        bad = None
        for i in rec:
            if all(o is a for o, a in zip(i.ops, F.args)) and not any(x.op == 'store' or x.op == 'call' and not isdbg(x) and x is not i for y in F.blocks for x in y.insts):
                bad = (i, 'the function calls itself with the arguments it was given')
        fa = [a for a in F.args if a.ty.kind == 'double']
        if bad is None and len(fa) == 1:
            for nm, x in (('NaN', math.nan), ('infinity', math.inf), ('-infinity', -math.inf), ('zero', 0.0), ('-0', -0.0)):
                chain = []
                while not any(eqv(('c', x), ('c', y)) for y in chain) and len(chain) < 40:
                    chain.append(x)
                    S = Special(F, lambda v, x=x: x if v is fa[0] else None)
                    nx = [i for i in rec if i.block.idx in S.reached]
                    if len(nx) != 1 or not certain(S, F, nx[0].block):
                        break
                    v = S.get(nx[0].ops[fa[0].index])
                    if v in (None, 'top'):
                        break
                    x = v[1]
                else:
                    if len(chain) < 40:
                        bad = (nx[0], 'given %s, the function calls itself for ever (%s)' % (nm, ' -> '.join(map(repr, chain + [x]))))
                        break
        if bad:
            b.bad('recursion', where(bad[0]), bad[1])
        else:
            b.ok('recursion', F.name, 'a path without a further call exists; the depth over every number is bounded by the evaluation of P20-P22' if len(fa) == 1 else
                 'a path without a further call exists')


def reach_without(F, avoid):
    """a return reached from the entry without the given blocks"""
    if 0 in avoid:
        return False
    seen, work = {0}, [F.blocks[0]]
    while work:
        x = work.pop()
        t = x.insts[-1]
        if t.op == 'ret':
            return True
        for s in t.succs or []:
            if s.idx not in seen and s.idx not in avoid:
                seen.add(s.idx)
                work.append(s)
    return False


def certain(S, F, blk):
    """the block is reached on the only path the propagation leaves"""
    x = F.blocks[0]
    seen = set()
    while x is not blk:
        if x.idx in seen:
            return False
        seen.add(x.idx)
        ss = {s.idx for s in (x.insts[-1].succs or []) if (x.idx, s.idx) in S.edges}
        if len(ss) != 1:
            return False
        x = F.blocks[ss.pop()]
    return True


def direct(F):
    return {i.callee.v for x in F.blocks for i in x.insts if i.op == 'call' and isinstance(i.callee, Const) and i.callee.kind == 'func'}
