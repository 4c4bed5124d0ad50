"""Interprocedural effect analysis: which memory, named from the function's own parameters, a function may write, read,
retain; which functions it may call (function pointers resolved by the values that flow into them).

A place is a tuple:
  ('arg', i)      memory the i-th argument points to          ('argd', i)   memory reached by loading pointers from it
  ('local', id)   a stack object                              ('global', n) a global variable
  ('globald', n)  memory reached through pointers in n        ('heap', id)  fresh storage returned by a call
  ('func', n)     a function (as a value)                     ('ext', x)    result of an unknown function
"""
from .ir import Const, Arg, Inst
from .engine import where

UNK = ('ext', '?')


def deref(p):
    if p[0] == 'arg':
        return ('argd', p[1])
    if p[0] == 'global':
        return ('globald', p[1])
    return p


class Effects:
    def __init__(self, m):
        self.m = m
        self.sum = {}
        self.val = {}            # (fn, value) -> set of places
        self.contents = {}       # place of a local/heap/global object -> {offset or None: set}
        self.fnparams = {}       # (fn, i) -> set of function names / ext that may be passed
        self.changed = True
        for f in m.defined:
            self.sum[f.name] = {'writes': {}, 'reads': {}, 'ret': set(), 'keeps': {}, 'calls': {}, 'ext': {}}
        for g in m.globals.values():
            self.init_global(g)
        self.rounds = 0
        while self.changed and self.rounds < 30:
            self.changed = False
            self.rounds += 1
            for f in m.defined:
                self.function(f)

    # -- helpers
    def add(self, s, x):
        n = len(s)
        s |= x
        if len(s) != n:
            self.changed = True

    def put(self, d, k, v):
        if k not in d:
            d[k] = v
            self.changed = True

    def init_global(self, g):
        c = self.contents.setdefault(('global', g.name), {})

        def go(k, off):
            if k is None:
                return
            if k.kind in ('func', 'global') or k.kind == 'expr':
                c.setdefault(off, set()).update(self.const(k))
            elif k.kind == 'agg':
                t = k.ty
                for i, x in enumerate(k.v):
                    go(x, off + (t.offsets[i] if t.kind == 'struct' else i * t.elem.size))
        go(g.init, 0)

    def const(self, v):
        if v.kind == 'func':
            return {('func', v.v)}
        if v.kind == 'global':
            return {('global', v.v)}
        if v.kind == 'expr':
            r = set()
            for a in v.args:
                if isinstance(a, Const):
                    r |= self.const(a)
            return r
        return set()

    def places(self, f, v):
        if isinstance(v, Const):
            return self.const(v)
        if isinstance(v, Arg):
            if v.ty.kind == 'ptr':
                return {('arg', v.index)} | self.fnparams.get((f.name, v.index), set())
            return set()
        return self.val.get((f.name, v.id), set())

    def setval(self, f, ins, s):
        self.add(self.val.setdefault((f.name, ins.id), set()), set(s))

    def offset(self, v, base=None):
        """constant offset of a pointer value from its object, or None"""
        if isinstance(v, Inst) and v.op == 'getelementptr':
            o = self.offset(v.ops[0])
            if o is None:
                return None
            t = v.gep
            for k, i in enumerate(v.ops[1:]):
                if not (isinstance(i, Const) and i.kind == 'int'):
                    return None
                n = i.v
                if k == 0:
                    o += n * (t.size or 0)
                elif t.kind == 'struct':
                    o += t.offsets[n]
                    t = t.elems[n]
                else:
                    t = t.elem
                    o += n * t.size
            return o
        if isinstance(v, Inst) and v.op in ('phi', 'select', 'bitcast', 'freeze'):
            return None if v.op != 'bitcast' else self.offset(v.ops[0])
        return 0

    def load(self, p, off):
        r = set()
        if p[0] in ('local', 'heap', 'global'):
            c = self.contents.get(p, {})
            for k, s in c.items():
                if k is None or off is None or k == off:
                    r |= s
            if p[0] == 'global':
                pass
        if p[0] in ('arg', 'argd', 'global', 'globald', 'ext'):
            r.add(deref(p))
        return r

    def store(self, f, ins, p, off, vals):
        S = self.sum[f.name]
        if p[0] != 'local':
            self.put(S['writes'], (p, ins.id), ins)
        if p[0] in ('local', 'heap', 'global'):
            self.add(self.contents.setdefault(p, {}).setdefault(off, set()),
                     set(vals) if p[0] == 'local' else {v if v[0] in ('func', 'global', 'heap') else UNK for v in vals})
        if p[0] != 'local':
            for v in vals:
                if v[0] in ('arg', 'argd', 'local', 'global'):
                    self.put(S['keeps'], (p, v, ins.id), ins)

    def targets(self, f, c):
        """functions an indirect call may reach"""
        out, ext = set(), set()
        for p in self.places(f, c):
            if p[0] == 'func':
                out.add(p[1])
            else:
                ext.add(p)
        return out, ext

    def function(self, f):
        S = self.sum[f.name]
        for b in f.blocks:
            for ins in b.insts:
                op = ins.op
                if op == 'alloca':
                    self.setval(f, ins, {('local', (f.name, ins.id))})
                elif op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                    self.setval(f, ins, self.places(f, ins.ops[0]))
                elif op in ('phi', 'select', 'add', 'sub', 'and', 'or'):
                    r = set()
                    for o in (ins.ops[1:] if op == 'select' else ins.ops):
                        r |= self.places(f, o)
                    self.setval(f, ins, r)
                elif op == 'load':
                    r = set()
                    off = self.offset(ins.ops[0])
                    for p in self.places(f, ins.ops[0]):
                        self.put(S['reads'], (p, ins.id), ins)
                        if ins.ty.kind == 'ptr' or p[0] == 'local':
                            r |= self.load(p, off)
                    if ins.ty.kind in ('ptr', 'int'):
                        self.setval(f, ins, r if ins.ty.kind == 'ptr' else {x for x in r if x[0] == 'never'})
                elif op == 'store':
                    vals = self.places(f, ins.ops[0]) if ins.ops[0].ty.kind == 'ptr' else set()
                    off = self.offset(ins.ops[1])
                    ps = self.places(f, ins.ops[1])
                    for p in ps or {UNK}:
                        self.store(f, ins, p, off, vals)
                elif op == 'call':
                    self.call(f, ins, S)
                elif op == 'ret' and ins.ops:
                    self.add(S['ret'], {p for p in self.places(f, ins.ops[0]) if p[0] != 'local'})

    def call(self, f, ins, S):
        c = ins.callee
        if isinstance(c, Const) and c.kind == 'asm':
            self.put(S['ext'], ('asm', ins.id), ins)
            return
        if isinstance(c, Const) and c.kind == 'func':
            tg, ext = {c.v}, set()
        else:
            tg, ext = self.targets(f, c)
        for e in ext:
            self.put(S['ext'], (e, ins.id), ins)
            if ins.ty.kind == 'ptr':
                self.setval(f, ins, {('heap', (f.name, ins.id))})
        for t in tg:
            self.put(S['calls'], (t, ins.id), ins)
            F = self.m.functions.get(t)
            if F is None or F.decl:
                if t.startswith('llvm.'):
                    if t.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                        vals = set()
                        if 'memset' not in t:
                            for p in self.places(f, ins.ops[1]):
                                self.put(S['reads'], (p, ins.id), ins)
                                vals |= self.load(p, None)
                        for p in self.places(f, ins.ops[0]) or {UNK}:
                            self.store(f, ins, p, None, vals)
                    continue
                self.put(S['ext'], (('decl', t), ins.id), ins)
                continue
            T = self.sum[t]
            for i, a in enumerate(ins.ops[:len(F.args)]):
                if a.ty.kind == 'ptr':
                    fs = {p for p in self.places(f, a) if p[0] == 'func'}
                    self.add(self.fnparams.setdefault((t, i), set()), fs)

            def sub(p):
                if p[0] in ('arg', 'argd'):
                    if p[1] >= len(ins.ops):
                        return {UNK}
                    r = set()
                    for q in self.places(f, ins.ops[p[1]]):
                        if p[0] == 'arg':
                            r.add(q)
                        else:
                            r |= self.load(q, None)
                    return r
                return {p}
            for (p, i), w in list(T['writes'].items()):
                for q in sub(p):
                    if q[0] != 'local':
                        self.put(S['writes'], (q, i), w)
                    else:
                        self.add(self.contents.setdefault(q, {}).setdefault(None, set()), set())
            for (p, i), w in list(T['reads'].items()):
                for q in sub(p):
                    if q[0] != 'local':
                        self.put(S['reads'], (q, i), w)
            for (p, v, i), w in list(T['keeps'].items()):
                for q in sub(p):
                    for x in sub(v):
                        if q[0] in ('local', 'heap', 'global'):
                            self.add(self.contents.setdefault(q, {}).setdefault(None, set()),
                                     {x} if q[0] == 'local' or x[0] in ('func', 'global', 'heap') else {UNK})
                        if q[0] != 'local' and x[0] in ('arg', 'argd', 'local', 'global'):
                            self.put(S['keeps'], (q, x, i), w)
            for (e, i), w in list(T['ext'].items()):
                if isinstance(e, tuple) and e[0] in ('arg', 'argd'):
                    for q in sub(e):
                        if q[0] == 'func':
                            self.put(S['calls'], (q[1], i), w)
                        else:
                            self.put(S['ext'], (q, i), w)
                else:
                    self.put(S['ext'], (e, i), w)
            if ins.ty.kind == 'ptr':
                r = set()
                for p in T['ret']:
                    r |= sub(p)
                self.setval(f, ins, r)

    # -- queries
    def reach(self, name):
        """functions reachable from name, with one call path each"""
        path = {name: [name]}
        work = [name]
        while work:
            x = work.pop()
            for (t, _), _i in self.sum.get(x, {'calls': {}})['calls'].items():
                if t not in path:
                    path[t] = path[x] + [t]
                    work.append(t)
        return path
