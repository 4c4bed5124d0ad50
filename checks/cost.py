"""P30: the work of an operation is bounded by what is stored, never by what has been seen.

Interprocedural cost analysis: every loop is given the size class of its number of rounds (constant, stored = capacity or cursor
of the container, batch = length given by the caller, seen = counters of the stream), taken from the limit of a counter that
moves towards it in every round; classes are multiplied along loop nests and calls (calls are followed with the abstract values
of their arguments, so that a size passed down, or a function passed as an argument, is known)."""
from sa.harness import *
from sa.ir import Const, Arg, Inst
from sa.engine import where
from sa.effects import Effects
from . import stream
from .term import LoopInfo, dominators, conds, counter_of, strip, isdbg, NEG, SWP, base

ONE = frozenset({()})
UNK = None
NAME = {'S': 'stored excesses', 'B': 'length of the batch', 'N': 'values seen'}


def norm(s):
    """drop what is dominated"""
    s = set(s)
    for a in list(s):
        if any(a != b and sub(a, b) for b in s):
            s.discard(a)
    return frozenset(s)


def sub(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def join(*c):
    if any(x is None for x in c):
        return None
    return norm(frozenset().union(*c)) if c else ONE


def times(a, b):
    if a is None or b is None:
        return None
    return norm({tuple(sorted(x + y)) for x in a for y in b})


def show(m):
    return ' x '.join(NAME.get(x, x) for x in m) or 'constant'


class V:
    """abstract value: pointer (root, offset), size class, functions; sure = the class is reached, not only an upper bound"""
    __slots__ = ('ptr', 'cls', 'fns', 'sure')

    def __init__(self, ptr=None, cls=None, fns=None, sure=True):
        self.ptr, self.cls, self.fns, self.sure = ptr, cls, fns, sure

    def key(self):
        return (self.ptr, self.cls, self.fns, self.sure)


TOP = V()


class Cost:
    def __init__(self, ctx, b):
        self.ctx, self.b, self.m = ctx, b, ctx.m
        self.E = Effects(ctx.m)
        self.dom = {}
        self.memo = {}
        self.stack = []
        S, U = ctx.lay['Spot'], ctx.lay['Ubend']
        cont = S['tail.peaks.container.cursor'] - U['cursor']
        self.fields = {cont + U['cursor']: frozenset({('S',)}), cont + U['capacity']: frozenset({('S',)}),
                       S['n']: frozenset({('N',)}), S['Nt']: frozenset({('N',)})}
        self.dataoff = cont + U['data']
        self.loops = {}
        self.und = []

    def run(self, f, args):
        F = self.m.functions.get(f)
        k = (f, tuple(a.key() for a in args))
        if k in self.memo:
            return self.memo[k]
        if f in [x for x, _ in self.stack]:
            return [], V(cls=None)           # recursion (xexp, frexp): depth decided by P17, P20-P22
        self.stack.append(k)
        self.memo[k] = r = Frame(self, F, args).result()
        self.stack.pop()
        return r


class Frame:
    """one function with abstract arguments"""

    def __init__(self, C, F, args):
        self.C, self.F, self.args = C, F, args
        C.b.cov['functions'].add(F.name)
        if F.name not in C.dom:
            C.dom[F.name] = dominators(F)
        self.info = {id(L): LoopInfo(C.E, F, L, C.dom[F.name]) for L in F.loops}
        self.val = {}
        self.busy = set()
        self.trip = {}

    # -- values
    def v(self, o):
        if isinstance(o, Const):
            if o.kind == 'int':
                return V(cls=ONE)
            if o.kind == 'fp':
                return V(cls=ONE)
            if o.kind == 'func':
                return V(fns=frozenset({o.v}))
            if o.kind == 'global':
                return V(ptr=('g:' + o.v, 0))
            return TOP
        if isinstance(o, Arg):
            return self.args[o.index] if o.index < len(self.args) else TOP
        if o.id in self.val:
            return self.val[o.id]
        if o.id in self.busy:
            return TOP
        self.busy.add(o.id)
        try:
            r = self.inst(o)
        finally:
            self.busy.discard(o.id)
        self.val[o.id] = r
        return r

    def inst(self, i):
        op = i.op
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'ptrtoint'):
            r = self.v(i.ops[0])
            if op == 'ptrtoint':
                return V(cls=self.offcls(r))
            return r
        if op in ('add', 'sub', 'or', 'xor'):
            a, c = self.v(i.ops[0]), self.v(i.ops[1])
            return V(cls=join(a.cls, c.cls), sure=a.sure and c.sure and op == 'add' or a.sure and c.cls == ONE)
        if op == 'mul':
            a, c = self.v(i.ops[0]), self.v(i.ops[1])
            return V(cls=times(a.cls, c.cls), sure=a.sure and c.sure)
        if op in ('udiv', 'sdiv', 'lshr', 'ashr'):
            a, c = self.v(i.ops[0]), self.v(i.ops[1])
            return V(cls=a.cls, sure=a.sure and isinstance(i.ops[1], Const))
        if op == 'shl':
            a = self.v(i.ops[0])
            return V(cls=a.cls, sure=a.sure) if isinstance(i.ops[1], Const) else TOP
        if op in ('urem', 'and'):
            a, c = self.v(i.ops[0]), self.v(i.ops[1])
            if isinstance(i.ops[1], Const):
                return V(cls=ONE)
            return V(cls=c.cls, sure=False) if op == 'urem' else V(cls=join(a.cls, c.cls), sure=False)
        if op == 'srem' and isinstance(i.ops[1], Const):
            return V(cls=ONE)
        if op in ('icmp', 'fcmp'):
            return V(cls=ONE)
        if op == 'select':
            a, c = self.v(i.ops[1]), self.v(i.ops[2])
            k = i.ops[0]
            if isinstance(k, Inst) and k.op == 'icmp' and {id(o) for o in k.ops} == {id(o) for o in i.ops[1:]} and (a.cls == ONE or c.cls == ONE):
                lo = k.pred in ('ult', 'ule', 'slt', 'sle')
                if (k.ops[0] is i.ops[1]) == lo:
                    return V(cls=ONE)            # the smaller of the two
            return self.both(a, c)
        if op == 'phi':
            L = i.block.loop
            if L is not None and i.block is L.header and i.ty.kind in ('int', 'ptr'):
                st = self.info[id(L)].steps(i)
                init = [self.v(x) for x, p in i.incoming if p.idx not in L.blocks]
                if st is None or len(init) != 1:
                    return TOP
                if i.ty.kind == 'ptr':
                    p = init[0].ptr
                    return V(ptr=(p[0], None) if p else None)
                t = self.trips(L)
                return V(cls=join(init[0].cls, t[0]), sure=init[0].sure and t[1])
            r = None
            for x in i.ops:
                w = self.v(x)
                r = w if r is None else self.both(r, w)
            return r or TOP
        if op == 'getelementptr':
            p = self.v(i.ops[0]).ptr
            if p is None:
                return TOP
            o = self.C.E.offset(i)
            o0 = self.C.E.offset(i.ops[0])
            if o is not None and o0 is not None and isinstance(p[1], int):
                return V(ptr=(p[0], p[1] + o - o0))
            if isinstance(p[1], int) and self.const_gep(i) is not None:
                return V(ptr=(p[0], p[1] + self.const_gep(i)))
            idx = [self.v(x) for x in i.ops[1:]]
            return V(ptr=(p[0], None), cls=join(*[x.cls for x in idx]), sure=all(x.sure for x in idx))
        if op == 'alloca':
            return V(ptr=('l%d' % i.id, 0))
        if op == 'load':
            return self.load(i)
        if op == 'call':
            return self.callee(i)[1]
        return TOP

    def const_gep(self, i):
        t, o = i.gep, 0
        for k, x in enumerate(i.ops[1:]):
            if not (isinstance(x, Const) and x.kind == 'int'):
                return None
            if k == 0:
                o += x.v * (t.size or 0)
            elif t.kind == 'struct':
                o += t.offsets[x.v]
                t = t.elems[x.v]
            else:
                t = t.elem
                o += x.v * t.size
        return o

    def both(self, a, c):
        p = a.ptr if a.ptr == c.ptr else (a.ptr[0], None) if a.ptr and c.ptr and a.ptr[0] == c.ptr[0] else None
        f = None if a.fns is None and c.fns is None else (a.fns or frozenset()) | (c.fns or frozenset())
        return V(p, join(a.cls, c.cls), f, a.sure and c.sure and a.cls == c.cls)

    def offcls(self, w):
        return w.cls if w.cls is not None else ONE if w.ptr and isinstance(w.ptr[1], int) else None

    def load(self, i):
        p = self.v(i.ops[0]).ptr
        if p is None:
            return TOP
        if p[0] == 'spot' and isinstance(p[1], int):
            if i.ty.kind == 'ptr':
                return V(ptr=('ring', 0)) if p[1] == self.C.dataoff else TOP
            if i.ty.kind == 'int':
                return V(cls=self.C.fields.get(p[1], ONE))
            return TOP
        if p[0].startswith('g:'):
            G = self.C.m.globals.get(p[0][2:])
            if G is not None and getattr(G, 'const', False) and i.ty.kind == 'int':
                return V(cls=ONE)
            if i.ty.kind == 'ptr':
                tg, ext = self.C.E.targets(self.F, i)
                fs = frozenset(tg)
                return V(fns=fs or None, ptr=('text', 0))
        if p[0].startswith('l') and i.ty.kind == 'int':
            # a local written with values of one class only
            r = None
            for blk in self.F.blocks:
                for s in blk.insts:
                    if s.op == 'store' and base(s.ops[1]) is base(i.ops[0]):
                        w = self.v(s.ops[0])
                        r = w if r is None else self.both(r, w)
                    elif s.op == 'call' and not isdbg(s) and any(base(o) is base(i.ops[0]) for o in s.ops if isinstance(o, Inst)):
                        return TOP
            return r or TOP
        return TOP

    def callee(self, i):
        """(cost items, value)"""
        if isdbg(i):
            return [], TOP
        if isinstance(i.callee, Const) and i.callee.kind == 'func':
            tg = {i.callee.v}
        else:
            w = self.v(i.callee)
            tg = set(w.fns or ()) or self.C.E.targets(self.F, i.callee)[0]
        items, val = [], None
        for t in sorted(tg):
            G = self.C.m.functions.get(t)
            if G is None or G.decl:
                if t.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                    n = self.v(i.ops[2])
                    if n.cls != ONE:
                        items.append((n.cls, n.sure, (where(i),)))
                continue
            c, v = self.C.run(t, [self.v(o) for o in i.ops[:len(G.args)]])
            items += c
            val = v if val is None else self.both(val, v)
        return items, val or TOP

    # -- loops
    def trips(self, L):
        """(class, sure, text) of the number of rounds"""
        k = id(L)
        if k in self.trip:
            return self.trip[k]
        self.trip[k] = (None, False)
        I = self.info[k]
        best = None
        for blk in I.every:
            t = blk.insts[-1]
            if t.op != 'br' or len(t.succs) != 2:
                continue
            ins = [s.idx in L.blocks for s in t.succs]
            if all(ins) or not any(ins):
                continue
            cs = []
            conds(t.ops[0], ins[0], cs)
            for c, want in cs:
                if c.op != 'icmp':
                    continue
                pred = c.pred if want else NEG[c.pred]
                for x, y, p in ((c.ops[0], c.ops[1], pred), (c.ops[1], c.ops[0], SWP[pred])):
                    cn = counter_of(I, strip(x)[0])
                    if cn is None:
                        continue
                    if not I.invariant(y) and not (y.ty.kind == 'int' and self.v(y).cls == frozenset({('S',)})):
                        continue          # (a size of the container stays below its capacity)
                    st = I.steps(cn[0])
                    if not st or 0 in st or st[0] < 0 < st[-1]:
                        continue
                    up = st[0] > 0
                    if not (up and p in ('ult', 'slt', 'ule', 'sle') or not up and p in ('ugt', 'sgt', 'sge', 'uge') or p == 'ne'):
                        continue
                    init = [self.v(v) for v, q in cn[0].incoming if q.idx not in L.blocks]
                    lim = self.v(y)
                    if cn[0].ty.kind == 'ptr':
                        a = join(*[self.offcls(w) for w in init], self.offcls(lim))
                    else:
                        a = join(*[w.cls for w in init], lim.cls)
                    sure = all(w.sure for w in init) and lim.sure
                    if a is None:
                        continue
                    if best is None or best[0] != ONE and (a == ONE or len(min(a)) < len(min(best[0]))):
                        best = (a, sure)
        if best is None:
            # a walk through an object of fixed length
            for blk in I.every:
                for i in blk.insts:
                    if i.op != 'load':
                        continue
                    g = i.ops[0]
                    if isinstance(g, Inst) and g.op == 'getelementptr':
                        p = self.v(g.ops[0]).ptr
                        if p and (p[0].startswith(('l', 'g:', 'text'))) and I.invariant(g.ops[0]) and any(counter_of(I, strip(o)[0]) for o in g.ops[1:]):
                            best = (ONE, True)
                    if g in I.phis:
                        p = self.v(g).ptr
                        if p and p[0].startswith(('l', 'g:', 'text')):
                            best = (ONE, True)
        self.trip[k] = best or (None, False)
        return self.trip[k]

    def nest(self, blk):
        """(class, sure, lines) of how often the block runs"""
        c, sure, lines = ONE, True, ()
        L = blk.loop
        inner = blk
        while L is not None:
            t = self.trips(L)
            if inner is not blk or True:
                # only in one round?
                if once(self.info[id(L)], inner):
                    t = (ONE, True)
            c = times(c, t[0])
            sure = sure and t[1]
            if t[0] != ONE:
                h = next((i for i in L.header.insts if i.line and i.op != 'phi'), L.header.insts[-1])
                lines = (where(h),) + lines
            inner = L.header
            L = L.parent
        return c, sure, lines

    def result(self):
        """cost: list of (class, sure, locations); and the returned value"""
        out = []
        ret = None
        for L in self.F.loops:
            c, sure, lines = self.nest(L.header)
            if c != ONE:
                out.append((c, sure, lines))
            self.C.loops[where(next((i for i in L.header.insts if i.line and i.op != 'phi'), L.header.insts[-1]))] = self.trips(L)[0]
        for blk in self.F.blocks:
            for i in blk.insts:
                if i.op == 'call' and not isdbg(i):
                    items, _ = self.callee(i)
                    if items:
                        c, sure, lines = self.nest(blk)
                        for k, s, l in items:
                            out.append((times(c, k), s and sure, lines + (where(i),) + l))
                elif i.op == 'alloca' and i.ops and not isinstance(i.ops[0], Const):
                    out.append(('vla', True, (where(i),)))
                elif i.op == 'ret' and i.ops:
                    w = self.v(i.ops[0])
                    ret = w if ret is None else self.both(ret, w)
        seen, res = set(), []
        for x in out:
            if (x[0], x[1]) not in seen:
                seen.add((x[0], x[1]))
                res.append(x)
        return res, ret or TOP


def once(I, blk):
    """the block runs in at most one round: guarded by an equality with the counter of the loop"""
    for d in I.bl:
        t = d.insts[-1]
        if d is blk or t.op != 'br' or len(t.succs) != 2 or d.idx not in I.dom[blk.idx]:
            continue
        for k, s in enumerate(t.succs):
            if s.idx in I.dom[blk.idx] and len(s.preds) == 1 and s.idx in I.L.blocks:
                cs = []
                conds(t.ops[0], k == 0, cs)
                for c, want in cs:
                    if c.op == 'icmp' and (c.pred == 'eq') == want and c.pred in ('eq', 'ne') and any(counter_of(I, strip(o)[0]) for o in c.ops if isinstance(o, Inst)):
                        return True
    return False


LIMIT = {'spot_quantile': (), 'spot_probability': (), 'spot_init': (), 'spot_free': (), 'spot_step': ('S',), 'spot_fit': ('B', 'S')}


def p30(ctx, b, tier):
    ctx.need('spot_step', 'spot_fit', 'spot_quantile', 'spot_probability')
    b.rule('cost', 'queries take a constant number of operations, feeding a value at most a multiple of the stored excesses, fitting at most a multiple of batch length x stored excesses; nothing grows with the number of values seen')
    b.rule('normal', 'a value that is not an excess takes no loop at all')
    b.rule('stack', 'no stack storage of variable length')
    C = Cost(ctx, b)
    for f, lim in LIMIT.items():
        F = ctx.m.functions.get(f)
        if F is None or F.decl:
            continue
        args = [V(ptr=('spot', 0))]
        if f == 'spot_fit':
            args += [V(ptr=('data', 0)), V(cls=frozenset({('B',)}))]
        elif f == 'spot_init':
            args += [V(cls=ONE), V(cls=ONE), V(cls=ONE), V(cls=ONE), V(cls=frozenset({('S',)}))]
        else:
            args += [TOP] * (len(F.args) - 1)
        items, _ = C.run(f, args)
        bad = False
        for c, sure, lines in items:
            path = ' -> '.join(lines)
            if c == 'vla':
                b.bad('stack', '%s: %s' % (f, path), 'stack storage of variable length')
                continue
            if c is None:
                b.und('cost', '%s: %s' % (f, path), 'number of rounds not known')
                continue
            over = [m for m in c if not sub(m, lim)]
            if not over:
                b.ok('cost', '%s: %s' % (f, path), ', '.join(show(m) for m in c))
            elif sure:
                bad = True
                b.bad('cost', '%s: %s' % (f, path), 'the work grows like %s; at most %s is allowed' % (show(over[0]), show(lim)))
            else:
                b.und('cost', '%s: %s' % (f, path), 'upper bound %s' % show(over[0]))
        if not items:
            b.ok('cost', f, 'no loop')
        b.ok('stack', f)
    b.cov['loops'] = {k: sorted(show(m) for m in v) if v is not None else 'unknown' for k, v in C.loops.items()}
    # values that are not excesses: no loop on their way
    en = ctx.en
    for low, disc, regime in stream.configs():
        E = stream.stream_engine(ctx)
        st = State()
        e = mk_spot(ctx, E, st, low, disc, regime)
        for xn, x in stream.inputs():
            for s1, v in E.call(st.copy(), 'spot_step', [e.p, x]):
                b.cov['partitions'] += 1
                w = 'spot_step(%s) [%s]' % (xn, stream.cfg(low, disc, regime))
                r = v.sconst() if isinstance(v, I) else None
                if r is None:
                    b.und('normal', w, 'status %r' % (v,))
                elif r == en['EXCESS']:
                    continue
                else:
                    ev = [y for y in s1.events if getattr(y, 'name', '') in ('<loop>', 'push', 'fit')]
                    if ev and s1.exact:
                        b.bad('normal', w, 'a value answered %d is treated with %s; partition: %s' % (r, {'<loop>': 'a loop', 'push': 'a storage', 'fit': 'a fit'}[ev[0].name], part(s1)))
                    elif ev:
                        b.und('normal', w, 'a loop on the way')
                    else:
                        b.ok('normal', w)
        b.engine(E)
