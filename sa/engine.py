"""Abstract interpreter over the normalised IR.

Forward analysis with trace partitioning: the abstract state maps SSA values and memory cells to value
numbers (see alg.py) and carries a conjunction of facts; a branch whose condition the facts do not decide splits
the state in two partitions.  Calls are analysed in the context of the caller; functions registered as boundaries
are replaced by an event plus the effect of their summary.  Loops are either stepped through (all exits decided
within a small bound) or summarised: induction variables, reductions (sum / min / max), preserved equalities.
No path is handed to a solver and nothing of /repo is executed.
"""
import os
import time
from fractions import Fraction as Fr
from .alg import *
from . import alg
from .ir import Const, Arg, Inst


class Undecided(Exception):
    """the analysis cannot follow this construct"""


class Budget(Undecided):
    pass


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'arr', 'name', 'const', 'freed', 'init', 'elem', 'writes', 'nonan')

    def __init__(self, id, size, kind, name=None, elem=None):
        self.id = id
        self.size = size        # I(64)
        self.kind = kind        # stack heap global param
        self.name = name or id
        self.cells = {}         # const offset -> value
        self.elem = elem        # None or (elem size, type 'double'/'i8'..): array addressed by symbolic index
        self.writes = ()        # symbolic writes, oldest first: (off key form, value)
        self.const = False
        self.freed = False
        self.init = None        # 'lazy' | 'undef' | 'zero'
        self.nonan = False      # elements known not to be NaN

    def copy(self):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.name = self.id, self.size, self.kind, self.name
        o.cells = dict(self.cells)
        o.elem, o.writes, o.const, o.freed, o.init, o.nonan = self.elem, self.writes, self.const, self.freed, self.init, self.nonan
        return o


def on_open(st, v):
    """does v depend on a loop variable whose value after the loop is not known?"""
    op = st.extra.get('open')
    if not op:
        return False
    from .subst import Subst
    z = getattr(on_open, 'memo', None)
    if z is None or z[0] is not op:
        gm, am = {}, {}
        for k, x in op:
            if k == 'g':
                gm[x] = fconst(Fr(7919, 131))
            else:
                am[x] = iconst(64, (1 << 40) + 7)
        z = on_open.memo = (op, Subst(gm, am))
    if isinstance(v, (F, I, Ptr)):
        try:
            return z[1].val(v) != v
        except Exception:
            return True
    return False


class State:
    __slots__ = ('mem', 'facts', 'events', 'wlog', 'loops', 'depth', 'steps', 'own', 'extra', 'exact', 'trace')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.events = ()
        self.wlog = ()          # (obj id, offset form key or const, inst)
        self.loops = {}
        self.own = set()
        self.extra = {}
        self.exact = True
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.events = self.events
        s.wlog = self.wlog
        s.loops = self.loops
        self.own = set()
        s.own = set()
        s.extra = dict(self.extra)
        s.exact = self.exact
        s.trace = self.trace
        return s

    def obj(self, oid):
        return self.mem[oid]

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def add_obj(self, o):
        self.mem[o.id] = o
        self.own.add(o.id)
        return o


class Event:
    __slots__ = ('name', 'args', 'ret', 'inst', 'info', 'effects')

    def __init__(self, name, args, ret=None, inst=None, info=None, effects=None):
        self.name, self.args, self.ret, self.inst, self.info = name, args, ret, inst, info
        self.effects = effects

    def __repr__(self):
        return '%s(%s)%s' % (self.name, ', '.join(map(repr, self.args)), '' if self.ret is None else ' -> %r' % (self.ret,))


class LoopEvent:
    """events of a summarised loop"""
    __slots__ = ('loop', 'info')
    name = '<loop>'

    def __init__(self, loop, info):
        self.loop, self.info = loop, info

    def __repr__(self):
        return 'loop@%s{%s}' % (self.info.get('line'), ' | '.join(str(list(l['events'])) for l in self.info['leaves']))


def where(inst):
    if inst is None:
        return '?'
    f = inst.file or '?'
    return '%s:%s (%s)' % (os.path.basename(f), inst.line, inst.fn.name)


def vkey(v):
    return v.key() if hasattr(v, 'key') else v


class Engine:
    track_open = True       # a loop variable without closed form makes what depends on it inexact
    MAXU = 12
    cur = None
    ALL = []               # every engine made by this process
    deadline = None        # safeguard for modified sources on which the analysis would not come to an end
    force_step = False     # unroll loops over constant data although they also depend on a symbolic length
    MAXLIVE = 80

    def __init__(self, module, boundaries=None, models=None, max_states=60000):
        self.m = module
        Engine.ALL.append(self)
        self.boundaries = dict(boundaries or {})
        self.models = dict(models or {})
        self.max_states = max_states
        self.nstates = 0
        self.nforks = 0
        self.obl = {}           # (inst id, kind) -> dict
        self.visited = set()    # (function, block)
        self.functions = set()
        self.global_ptr = {}
        self.depth = 0
        self.max_depth = 40
        self.loop_log = []
        self.header_hook = None
        self.check_mem = True
        self.pure_fns = {}
        self.lazy_hook = None
        self.calls = set()
        self.recursion_limit = 3
        self.unrolling = []
        self.want_order = False
        self.loop_uid = 0
        self.pick = None        # selection of the next partition of a loop body (None: all of them)
        self.opaque_nl = False  # products and quotients of two unknowns are uninterpreted (no algebra on them)
        self.leaf_hook = None   # called with the partitions of each stepped iteration
        self.div_lemma = False  # with opaque_nl: |b| >= 1 entails |a/b| <= |a|, same sign rule
        self.kinfo = {}         # loop counter atom -> True when the loop is a plain counted loop

    # ---------------------------------------------------------------- obligations
    def oblige(self, inst, kind, ok, st, msg='', definite=True):
        k = (inst.id if inst is not None else -1, kind)
        o = self.obl.get(k)
        if o is None:
            o = self.obl[k] = {'inst': inst, 'kind': kind, 'n': 0, 'status': 'ok', 'msg': '', 'facts': None}
        o['n'] += 1
        if not ok:
            s = 'fail' if definite else 'unknown'
            if o['status'] == 'ok' or (o['status'] == 'unknown' and s == 'fail'):
                o['status'] = s
                o['msg'] = msg
                o['facts'] = st.facts.describe()[:14]

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, name, size, kind, init='undef', elem=None, uniq=True):
        if uniq:
            alg._fresh[0] += 1
            oid = '%s#%d' % (name, alg._fresh[0])
        else:
            oid = name
        if isinstance(size, int):
            size = iconst(64, size)
        o = Obj(oid, size, kind, name, elem)
        o.init = init
        st.add_obj(o)
        return o

    def global_obj(self, st, name):
        oid = '@' + name
        if oid not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                raise Undecided('unknown global ' + name)
            o = Obj(oid, iconst(64, g.ty.size or 0), 'global', name)
            o.const = g.const
            o.init = 'lazy'
            st.add_obj(o)
            if g.init is not None:
                self.fill_const(st, o, 0, g.init)
                o.init = 'zero'
        return oid

    def fill_const(self, st, o, off, c):
        t = c.ty
        if c.kind == 'agg':
            if t.kind == 'array':
                for i, e in enumerate(c.v):
                    self.fill_const(st, o, off + i * t.elem.size, e)
            else:
                for i, e in enumerate(c.v):
                    self.fill_const(st, o, off + t.offsets[i], e)
        elif c.kind == 'zero':
            self.fill_zero(o, off, t)
        elif c.kind == 'undef':
            pass
        else:
            o.cells[off] = self.const_value(st, c)

    def fill_zero(self, o, off, t):
        if t.kind == 'array':
            if t.count * (t.elem.size or 1) > 4096:
                return
            for i in range(t.count):
                self.fill_zero(o, off + i * t.elem.size, t.elem)
        elif t.kind == 'struct':
            for e, x in zip(t.elems, t.offsets):
                self.fill_zero(o, off + x, e)
        elif t.kind == 'int':
            o.cells[off] = iconst(t.bits, 0)
        elif t.kind in ('double', 'float'):
            o.cells[off] = fconst(0)
        elif t.kind == 'ptr':
            o.cells[off] = NULL

    def zero_of(self, t):
        if t.kind == 'int':
            return iconst(t.bits, 0)
        if t.kind in ('double', 'float'):
            return fconst(0)
        return NULL

    def const_value(self, st, c):
        k = c.kind
        if k == 'int':
            return iconst(c.ty.bits, c.v)
        if k == 'fp':
            return fconst(c.v)
        if k == 'null':
            return NULL
        if k == 'func':
            return Fn(c.v)
        if k == 'global':
            return Ptr(self.global_obj(st, c.v), iconst(64, 0))
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_of(c.ty)
        if k == 'expr':
            if c.op == 'getelementptr':
                base = self.const_value(st, c.args[0])
                return self.gep(st, base, c.extra, [self.const_value(st, a) for a in c.args[1:]])
            if c.op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                return self.const_value(st, c.args[0])
        raise Undecided('constant %r' % c)

    def gep(self, st, base, ty, idx):
        if base is UNDEF or isinstance(base, Undef):
            return UNDEF
        if isinstance(base, (Null, Fn, Sym)):
            if all(isinstance(i, I) and i.const() == 0 for i in idx):
                return base
            if isinstance(base, Null):
                base = Ptr('NULL', iconst(64, 0))
            else:
                return Sym('%s+' % base.name)
        off = base.off
        cur = ty
        for n, i in enumerate(idx):
            if not isinstance(i, I):
                raise Undecided('gep index %r' % (i,))
            if i.w != 64:
                i = self.ext_form(st, i, 64, True)
            if n == 0:
                off = iadd(off, iscale(i, cur.size))
            elif cur.kind == 'struct':
                k = i.const()
                off = iadd(off, iconst(64, cur.offsets[k]))
                cur = cur.elems[k]
            elif cur.kind == 'array':
                off = iadd(off, iscale(i, cur.elem.size))
                cur = cur.elem
            else:
                raise Undecided('gep into ' + cur.text)
        return Ptr(base.obj, off)

    def ext_form(self, st, i, w, signed):
        """extension when it provably does not change the integer; else None"""
        c = i.const()
        if c is not None:
            return iconst(w, i.sconst() if signed else c)
        t, k = i.lin()
        f = st.facts
        lo, hi = (-(1 << (i.w - 1)), (1 << (i.w - 1)) - 1) if signed else (0, (1 << i.w) - 1)
        for m in (0, 1 << i.w, -(1 << i.w)):
            kk = k + m
            if f.i_le({a: -v for a, v in t.items()}, -kk + lo) and f.i_le(t, kk - hi):
                return I(w, kk, t)
        nm = '%s%d(%r)' % ('sext' if signed else 'zext', w, i)
        return iatom(w, atom('ext', (w, signed, i.key()), nm, lo if signed else 0, hi))

    def check_access(self, st, inst, p, size, what):
        """bounds + liveness; returns ok"""
        if not self.check_mem:
            return True
        if isinstance(p, (Null,)) or (isinstance(p, Ptr) and p.obj == 'NULL'):
            self.oblige(inst, 'null', False, st, '%s through a null pointer' % what, st.exact)
            return False
        if not isinstance(p, Ptr):
            self.oblige(inst, 'valid-pointer', False, st, '%s through %r' % (what, p), st.exact and p is not UNDEF and not isinstance(p, Sym))
            return False
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige(inst, 'valid-pointer', False, st, '%s of unknown object %r' % (what, p), False)
            return False
        if o.freed:
            self.oblige(inst, 'live', False, st, '%s of released memory %s' % (what, o.name), st.exact)
        else:
            self.oblige(inst, 'live', True, st)
        t, c = p.off.lin()
        f = st.facts
        ok = f.i_le({a: -v for a, v in t.items()}, -c)
        if ok and o.size is not None:
            ts, cs = o.size.lin()
            d = dict(t)
            for a, v in ts.items():
                d[a] = d.get(a, 0) - v
            ok = f.i_le(d, c - cs + size)
        definite = False
        wit = ''
        if not ok and st.exact and all(Atom.byid[a].kind != 'lv' and self.kinfo.get(a, True) for a in t) and not on_open(st, p):
            # a point of the partition that is out of bounds
            from .valuation import sample
            for v in sample(f, (p.off,) + ((o.size,) if o.size is not None else ()), n=12):
                x = v.I(p.off, True)
                z = v.I(o.size) if o.size is not None else None
                if x < 0 or (z is not None and x + size > z):
                    definite = True
                    wit = ', e.g. offset %d of %s' % (x, z)
                    break
        self.oblige(inst, 'bounds', ok, st, '%s of %d bytes at offset %r of %s (size %r)%s' % (what, size, p.off, o.name, o.size, wit),
                    definite)
        return ok

    def sub_index(self, st, env, inst, ptr):
        """accesses through a[i]: i stays inside the declared array"""
        if not self.check_mem or getattr(ptr, 'op', None) != 'getelementptr' or isinstance(ptr, Const):
            return
        cur = ptr.gep
        for n, x in enumerate(ptr.ops[1:]):
            if n == 0:
                continue
            if cur.kind == 'struct':
                cur = cur.elems[self.operand(st, env, x).const()]
                continue
            if cur.kind != 'array':
                return
            i = self.operand(st, env, x)
            if cur.count and isinstance(i, I):
                if i.w != 64:
                    i = self.ext_form(st, i, 64, True)
                t, c = i.lin()
                c = c - (1 << 64) if c >= 1 << 63 else c
                ok = st.facts.i_le({a: -v for a, v in t.items()}, -c) and st.facts.i_le(t, c - cur.count + 1)
                definite, wit = False, ''
                if not ok and st.exact and all(Atom.byid[a].kind != 'lv' and self.kinfo.get(a, True) for a in t) and not on_open(st, i):
                    from .valuation import sample
                    for v in sample(st.facts, (i,), n=12):
                        z = v.I(i, True)
                        if z < 0 or z >= cur.count:
                            definite, wit = True, ', e.g. %d' % z
                            break
                self.oblige(inst, 'array-index', ok, st, 'index %r of an array of %d elements%s' % (i, cur.count, wit), definite)
            cur = cur.elem

    def load(self, st, inst, p, ty):
        size = ty.size
        ok = self.check_access(st, inst, p, size, 'read')
        if not isinstance(p, Ptr) or p.obj not in st.mem:
            if not ok:
                return UNDEF if ty.kind == 'ptr' else (UNDEF)
            raise Undecided('load through %r at %s' % (p, where(inst)))
        return self.load_obj(st, inst, p, ty)

    def lazy(self, st, o, off, ty):
        nm = '%s+%d' % (o.name, off) if self.lazy_hook is None else self.lazy_hook(o, off)
        if ty.kind in ('double', 'float'):
            return fgen(gen('in', (o.id, off), nm))
        if ty.kind == 'int':
            return iatom(ty.bits, atom('in', (o.id, off, ty.bits), nm, 0, (1 << ty.bits) - 1))
        return Sym(nm)

    def load_obj(self, st, inst, p, ty):
        o = st.mem[p.obj]
        off = p.off.const()
        if o.elem is not None:
            return self.load_elem(st, o, p.off, ty)
        if off is None:
            # symbolic offset into a cell object: only usable when facts pin it
            cands = self.pin_offset(st, o, p.off, ty.size)
            if cands is not None:
                off = cands
            else:
                return self.opaque_load(st, o, p, ty, inst)
        v = o.cells.get(off)
        if v is None:
            if o.init == 'zero' and o.kind == 'global':
                return self.zero_of(ty)
            if o.init == 'zero':
                return self.zero_of(ty)
            if o.init == 'undef':
                self.oblige(inst, 'initialised', False, st, 'read of uninitialised memory %s+%d' % (o.name, off), st.exact)
                if ty.kind in ('double', 'float'):
                    return fvar('uninit_%s_%d' % (o.name, off))
                if ty.kind == 'int':
                    return iatom(ty.bits, fresh_atom('uninit_%s_%d' % (o.name, off), 0, (1 << ty.bits) - 1))
                return UNDEF
            v = self.lazy(st, o, off, ty)
            st.wobj(o.id).cells[off] = v
        return self.coerce(st, v, ty)

    def opaque_load(self, st, o, p, ty, inst):
        k = (o.id, tuple(sorted((a, vkey(b)) for a, b in o.cells.items())), p.off.key())
        if o.const or o.kind == 'global':
            nm = '%s[%r]' % (o.name, p.off)
            if ty.kind in ('double', 'float'):
                return fgen(gen('gelem', k, nm))
            if ty.kind == 'int':
                return iatom(ty.bits, atom('gelem', k, nm, 0, (1 << ty.bits) - 1))
            return Ptr(self.symstr(st, nm), iconst(64, 0)) if False else Sym(nm)
        nm = '%s[%r]' % (o.name, p.off)
        if ty.kind in ('double', 'float'):
            return fgen(gen('gelem', k, nm))
        if ty.kind == 'int':
            return iatom(ty.bits, atom('gelem', k, nm, 0, (1 << ty.bits) - 1))
        raise Undecided('load of %s at symbolic offset %r of %s (%s)' % (ty, p.off, o.name, where(inst)))

    def pin_offset(self, st, o, off, size):
        t, c = off.lin()
        # try the cells present
        for k in o.cells:
            if st.facts.i_le(t, c - k) and st.facts.i_le({a: -v for a, v in t.items()}, k - c):
                return k
        return None

    def coerce(self, st, v, ty):
        if isinstance(v, F) and ty.kind == 'int':
            return self.bits_of(v, ty.bits)
        if isinstance(v, I) and ty.kind in ('double', 'float'):
            return self.of_bits(v)
        if isinstance(v, I) and ty.kind == 'int' and v.w != ty.bits:
            if ty.bits < v.w:
                return self.trunc(st, v, ty.bits)
            raise Undecided('wider reload')
        if isinstance(v, I) and ty.kind == 'ptr':
            if v.const() == 0:
                return NULL
        if v is UNDEF:
            return UNDEF
        return v

    def bits_of(self, v, w):
        return iatom(w, atom('bits', (w, v.key()), 'bits(%r)' % v, 0, (1 << w) - 1))

    def of_bits(self, v):
        if len(v.t) == 1 and v.c == 0:
            (a, k), = v.t.items()
            A = Atom.byid[a]
            if k == 1 and A.kind == 'bits' and A.key[0] == v.w:
                return alg.unkey(A.key[1])
        return fgen(gen('ofbits', v.key(), 'double(%r)' % v))

    # arrays addressed with symbolic indices (elem = (size, kind))
    def load_elem(self, st, o, off, ty):
        es, ek = o.elem
        t, c = off.lin()
        loopvar = any(Atom.byid[a].kind in ('k', 'lv') for a in t)
        ws = o.writes
        if not loopvar:
            for i in range(len(ws) - 1, -1, -1):
                woff, val = ws[i]
                if not isinstance(woff, I):
                    ver = tuple((w.key(), vkey(v)) for w, v in ws[:i + 1])
                    return self.elem_value(o, (o.id, ver), off, ty)
                d = isub(off, woff)
                dt, dc = d.lin()
                if not dt:
                    if dc == 0:
                        return self.coerce(st, val, ty)
                    continue
                if st.facts.i_le(dt, dc) and st.facts.i_le({a: -v for a, v in dt.items()}, -dc):
                    return self.coerce(st, val, ty)
                if st.facts.i_le(dt, dc + 1) or st.facts.i_le({a: -v for a, v in dt.items()}, -dc + 1):
                    continue
                if st.facts.i_ne(dt, dc):
                    continue
                raise NeedSplit(('i', 'eq', off, woff))
            ver = ()
        else:
            ver = tuple((w.key(), vkey(v)) for w, v in ws)
        ver = (o.id, ver)
        return self.elem_value(o, ver, off, ty)

    def elem_value(self, o, ver, off, ty):
        es, ek = o.elem
        if off.c % es == 0 and all(v % es == 0 for v in off.lin()[0].values()):
            t, c = off.lin()
            idx = '+'.join(['%s%s' % ('' if v == es else '%d*' % (v // es), Atom.byid[a].name) for a, v in t.items()] +
                           ([str(c // es)] if c or not t else []))
        else:
            idx = 'byte %r' % off
        nm = "%s%s[%s]" % (o.name, "'" * len(ver[1]), idx)
        if o.init == 'zero' and not ver[1]:
            return self.zero_of(ty)
        if ty.kind in ('double', 'float'):
            g = gen('elem', (ver, off.key()), nm, nan=False if o.nonan else None)
            if o.nonan and not ver[1]:
                g.nan = False
            return fgen(g)
        if ty.kind == 'int':
            return iatom(ty.bits, atom('elem', (ver, off.key()), nm, 0, (1 << ty.bits) - 1))
        raise Undecided('array of pointers')

    def store(self, st, inst, p, v, size):
        ok = self.check_access(st, inst, p, size, 'write')
        if not isinstance(p, Ptr) or p.obj not in st.mem:
            st.extra['deadstore'] = True
            return
        o = st.wobj(p.obj)
        off = p.off.const()
        st.wlog = st.wlog + ((p.obj, off if off is not None else p.off.key(), inst, v),)
        if o.const:
            self.oblige(inst, 'const-write', False, st, 'write to constant object ' + o.name)
        if o.elem is not None:
            ws = [(a, b) for a, b in o.writes if a != p.off]
            o.writes = tuple(ws + [(p.off, v)])
            return
        if off is None:
            k = self.pin_offset(st, o, p.off, size)
            if k is None:
                raise Undecided('store at symbolic offset %r of %s (%s)' % (p.off, o.name, where(inst)))
            off = k
        self.set_cell(o, off, v, size)

    def set_cell(self, o, off, v, size):
        for k in list(o.cells):
            if k != off and off - 16 < k < off + size:
                w = self.vsize(o.cells[k])
                if k + w > off and k < off + size:
                    del o.cells[k]
        o.cells[off] = v

    @staticmethod
    def vsize(v):
        if isinstance(v, I):
            return max(1, v.w // 8)
        return 8

    # ---------------------------------------------------------------- conditions
    def fork(self, st, cond):
        """[(state, bool)]"""
        if cond is True or cond is False:
            return [(st, cond)]
        if cond is UNDEF:
            self.oblige(self.cur, 'undef-branch', False, st, 'the outcome depends on an uninitialised value', st.exact)
            return [(st.copy(), True), (st, False)]
        k = cond[0]
        if k == 'not':
            return [(s, not b) for s, b in self.fork(st, cond[1])]
        if k in ('and', 'or'):
            out = []
            for s, b in self.fork(st, cond[1]):
                if b == (k == 'or'):
                    out.append((s, b))
                else:
                    out.extend(self.fork(s, cond[2]))
            return out
        if k == 'xor':
            out = []
            for s, b in self.fork(st, cond[1]):
                out.extend((s2, b != b2) for s2, b2 in self.fork(s, cond[2]))
            return out
        if k in 'fip':
            r = {'f': self.fork_f, 'i': self.fork_i, 'p': self.fork_p}[k](st, cond[1], cond[2], cond[3])
            if len(r) > 1 and 'open' in st.extra and (on_open(st, cond[2]) or on_open(st, cond[3])):
                # which of the outcomes are possible is not known
                for s, _ in r:
                    s.exact = False
            return r
        if k == 'sym':
            # opaque boolean atom
            d = st.extra.get(('b', cond[1]))
            if d is not None:
                return [(st, d)]
            a, b = st.copy(), st.copy()
            a.extra[('b', cond[1])] = True
            b.extra[('b', cond[1])] = False
            self.nforks += 1
            return [(a, True), (b, False)]
        raise Undecided('condition %r' % (cond,))

    def fork_nan(self, st, vals):
        """split on NaN-ness of the generators of vals: [(state, isnan)]"""
        if any(v.sp == 'nan' for v in vals):
            return [(st, True)]
        gs = sorted(set().union(*[v.gens() for v in vals])) if vals else []
        out = []
        cur = st
        for g in gs:
            r = cur.facts.isnan(g)
            if r is True:
                out.append((cur, True))
                return out
            if r is False:
                continue
            a = cur.copy()
            a.facts.set_nan(g, True)
            b = cur.copy()
            b.facts.set_nan(g, False)
            self.nforks += 1
            out.append((a, True))
            cur = b
        out.append((cur, False))
        return out

    def fork_f(self, st, pred, A, B):
        if A.sp == 'undef' or B.sp == 'undef':
            self.oblige(self.cur, 'undef-branch', False, st, 'the outcome depends on an uninitialised value', st.exact)
            return [(st.copy(), True), (st, False)]
        if pred in ('true', 'false'):
            return [(st, pred == 'true')]
        unord = pred[0] == 'u' and pred not in ('uno',)
        rel = pred[1:]
        out = []
        for s, isnan in self.fork_nan(st, [A, B]):
            if pred == 'ord':
                out.append((s, not isnan))
                continue
            if pred == 'uno':
                out.append((s, isnan))
                continue
            if isnan:
                out.append((s, unord))
                continue
            out.extend(self.fork_sign(s, rel, A, B))
        return out

    def fork_sign(self, st, rel, A, B):
        ok = {'eq': '0', 'ne': '-+', 'gt': '+', 'ge': '+0', 'lt': '-', 'le': '-0'}[rel]
        if A.sp or B.sp:
            if A.sp and B.sp:
                s = '0' if A.sp == B.sp else ('+' if A.sp == 'inf' else '-')
                return [(st, s in ok)]
            # finite (or possibly infinite) symbolic against an infinity
            x, i, flip = (B, A, True) if A.sp else (A, B, False)
            g = x.single()
            res = []
            if g is not None and ('inf', g.id) in st.extra:
                poss = st.extra[('inf', g.id)]
            else:
                poss = 'f'
            for p in poss:      # f finite, + inf, - -inf
                s = st
                if len(poss) > 1:
                    s = st.copy()
                    s.extra[('inf', g.id)] = p
                v = {'f': 0, '+': 1, '-': -1}[p]
                w = 1 if i.sp == 'inf' else -1
                sg = (v > w) - (v < w)
                if flip:
                    sg = -sg
                res.append((s, '-0+'[sg + 1] in ok))
            return res
        E = fsub(A, B)
        res = []
        for s, dsg in self.den_sign(st, E):
            p = E.num if dsg > 0 else pscale(E.num, -1)
            # multiply by a positive monomial so that exponents of unknown-sign generators stay meaningful
            p, s2 = self.clear_negative(s, p)
            for s3, q in s2:
                res.extend(self.split_sign(s3, q, ok))
        return res

    def clear_negative(self, st, p):
        """multiply out the monomial content so that the sign question is a polynomial one"""
        if len(p) == 0:
            return p, [(st, p)]
        mono = content(p)
        if not mono:
            return p, [(st, p)]
        if len(p) == 1:
            (m, c), = p.items()
        im = minv(mono)
        q = {mmul(k, im): v for k, v in p.items()}
        # sign of the content
        states = [(st, 1)]
        for g, e in mono:
            nxt = []
            for s, sg in states:
                if e % 2 == 0:
                    # factor >= 0; zero only if generator zero: keep generic (non-zero) case when dividing
                    sgn = s.facts.f_sign({((g, 1),): Fr(1)})
                    if '0' in sgn and e > 0 and len(sgn) > 1:
                        z = s.copy()
                        z.facts.f_add({((g, 1),): Fr(1)}, False, 1)
                        z.facts.f_add({((g, 1),): Fr(1)}, False, -1)
                        n = s.copy()
                        n.facts.f_add_ne({((g, 1),): Fr(1)})
                        nxt.append((z, 0))
                        nxt.append((n, sg))
                    elif sgn == '0' and e > 0:
                        nxt.append((s, 0))
                    else:
                        nxt.append((s, sg))
                    continue
                sgn = s.facts.f_sign({((g, 1),): Fr(1)})
                if e < 0:
                    sgn = sgn.replace('0', '') or '+'
                if len(sgn) > 1:
                    self.nforks += 1
                for ch in sgn:
                    n = s if len(sgn) == 1 else s.copy()
                    if len(sgn) > 1:
                        self.assume_sign(n, {((g, 1),): Fr(1)}, ch)
                    nxt.append((n, sg * {'-': -1, '0': 0, '+': 1}[ch]))
            states = nxt
        out = []
        for s, sg in states:
            out.append((s, pscale(q, sg) if sg else {}))
        return p, out

    def assume_sign(self, s, p, ch):
        if ch == '+':
            s.facts.f_add(p, True, -1)
        elif ch == '-':
            s.facts.f_add(p, True, 1)
        else:
            s.facts.f_add(p, False, 1)
            s.facts.f_add(p, False, -1)

    def den_sign(self, st, E):
        if E.den is P1 or E.den == P1:
            return [(st, 1)]
        sg = st.facts.f_sign(E.den).replace('0', '')
        if sg == '+':
            return [(st, 1)]
        if sg == '-':
            return [(st, -1)]
        if sg == '':
            return [(st, 1)]
        a, b = st.copy(), st.copy()
        a.facts.f_add(E.den, True, -1)
        b.facts.f_add(E.den, True, 1)
        self.nforks += 1
        return [(a, 1), (b, -1)]

    def split_sign(self, st, p, ok):
        poss = st.facts.f_sign(p)
        if not poss:
            return []
        t = [c for c in poss if c in ok]
        f = [c for c in poss if c not in ok]
        if not f:
            return [(st, True)]
        if not t:
            return [(st, False)]
        out = []
        self.nforks += 1
        for truth, cs in ((True, t), (False, f)):
            s = st.copy()
            cs = ''.join(cs)
            fa = s.facts
            if cs == '+':
                fa.f_add(p, True, -1)
            elif cs == '-':
                fa.f_add(p, True, 1)
            elif cs == '0':
                fa.f_add(p, False, 1)
                fa.f_add(p, False, -1)
            elif set(cs) == set('0+'):
                fa.f_add(p, False, -1)
            elif set(cs) == set('-0'):
                fa.f_add(p, False, 1)
            elif set(cs) == set('-+'):
                fa.f_add_ne(p)
            out.append((s, truth))
        return out

    def wraps(self, st, i, signed):
        """readings of the form as an integer: [(state, terms, const)]"""
        t, c = i.lin()
        if not t:
            k = i.sconst() if signed else i.c
            return [(st, {}, k)]
        M = 1 << i.w
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        neg = {a: -v for a, v in t.items()}
        out = []
        f = st.facts
        for m in (0, M, -M):
            cc = c + m
            if f.i_le(neg, -cc + lo) and f.i_le(t, cc - hi):
                return [(st, t, cc)]
        for m in (0, M, -M):
            cc = c + m
            # feasible reading?
            s = st.copy()
            if s.facts.i_infeasible(neg, -cc + lo):
                continue
            s.facts.i_add_le(neg, -cc + lo)
            if s.facts.i_infeasible(t, cc - hi):
                continue
            s.facts.i_add_le(t, cc - hi)
            out.append((s, t, cc))
        if i.w < 64 and not f.i_infeasible(neg, -c + hi + M + 1):
            # more than one wrap: the remainder, as a value of its own
            s = st.copy()
            s.facts.i_add_le(neg, -c + hi + M + 1)
            u = atom('iop', ('urem', I(64, c, t).key(), iconst(64, M).key()), 'urem(%r,%d)' % (I(64, c, t), M), 0, M - 1)
            s.facts.i_add_le({u.id: 1}, -(M - 1))
            s.facts.i_add_le({u.id: -1}, 0)
            if signed:
                s2 = s.copy()
                s.facts.i_add_le({u.id: 1}, -hi)
                s2.facts.i_add_le({u.id: -1}, hi + 1)
                out.append((s2, {u.id: 1}, -M))
            out.append((s, {u.id: 1}, 0))
        if len(out) > 1:
            self.nforks += 1
        return out

    def fork_i(self, st, pred, A, B):
        if A is UNDEF or B is UNDEF:
            raise Undecided('comparison of undefined integer')
        if pred in ('eq', 'ne'):
            d = isub(A, B)
            c = d.const()
            if c is not None:
                return [(st, (c == 0) == (pred == 'eq'))]
            res = []
            for s, ta, ca in self.wraps(st, A, False):
                for s2, tb, cb in self.wraps(s, B, False):
                    res.extend(self.split_eq(s2, ta, ca, tb, cb, pred == 'eq'))
            return res
        signed = pred[0] == 's'
        rel = pred[1:]
        res = []
        for s, ta, ca in self.wraps(st, A, signed):
            for s2, tb, cb in self.wraps(s, B, signed):
                if rel in ('gt', 'ge'):
                    l, lc, r, rc = tb, cb, ta, ca
                else:
                    l, lc, r, rc = ta, ca, tb, cb
                d = dict(l)
                for a, v in r.items():
                    d[a] = d.get(a, 0) - v
                dc = lc - rc + (1 if rel in ('gt', 'lt') else 0)
                # truth: d + dc <= 0
                n = {a: -v for a, v in d.items()}
                nt = not s2.facts.i_infeasible(d, dc)
                nf = not s2.facts.i_infeasible(n, -dc + 1)
                if nt and nf:
                    self.nforks += 1
                    a, b = s2.copy(), s2.copy()
                    a.facts.i_add_le(d, dc)
                    b.facts.i_add_le(n, -dc + 1)
                    res += [(a, True), (b, False)]
                elif nt:
                    res.append((s2, True))
                elif nf:
                    res.append((s2, False))
        return res

    def split_eq(self, s, ta, ca, tb, cb, iseq):
        d = dict(ta)
        for a, v in tb.items():
            d[a] = d.get(a, 0) - v
        d = {a: v for a, v in d.items() if v}
        c = ca - cb
        if not d:
            return [(s, (c == 0) == iseq)]
        n = {a: -v for a, v in d.items()}
        f = s.facts
        lt = not f.i_infeasible(d, c + 1)
        gt = not f.i_infeasible(n, -c + 1)
        e = s.copy()
        eq = not e.facts.i_infeasible(d, c)
        if eq:
            e.facts.i_add_le(d, c)
            eq = not e.facts.i_infeasible(n, -c)
            if eq:
                e.facts.i_add_le(n, -c)
        out = []
        if eq and (lt or gt):
            self.nforks += 1
        if eq:
            out.append((e if (lt or gt) else s, iseq))
        if lt or gt:
            b = s.copy() if eq else s
            b.facts.i_add_ne(d, c)
            out.append((b, not iseq))
        return out

    def fork_p(self, st, pred, A, B):
        if pred not in ('eq', 'ne'):
            if isinstance(A, Ptr) and isinstance(B, Ptr) and A.obj == B.obj:
                return self.fork_i(st, pred, A.off, B.off)
            raise Undecided('pointer order')
        r = None
        if isinstance(A, Null) and isinstance(B, Null):
            r = True
        elif isinstance(A, Ptr) and isinstance(B, Ptr):
            if A.obj == B.obj:
                return self.fork_i(st, pred, A.off, B.off)
            r = False
        elif isinstance(A, Fn) and isinstance(B, Fn):
            r = A.name == B.name
        elif isinstance(A, Sym) and isinstance(B, Sym) and A.name == B.name:
            r = True
        else:
            if isinstance(A, Null):
                A, B = B, A
            if isinstance(B, Null):
                if isinstance(A, (Ptr, Fn)):
                    r = False
                elif isinstance(A, Sym):
                    r = st.facts.null.get(A.name)
                    if r is None:
                        out = []
                        self.nforks += 1
                        for b in (True, False):
                            s = st.copy()
                            s.facts.null = dict(s.facts.null)
                            s.facts.null[A.name] = b
                            out.append((s, b == (pred == 'eq')))
                        return out
        if r is None:
            return self.fork(st, ('sym', ('ptreq', vkey(A), vkey(B)))) if pred == 'eq' else \
                [(s, not b) for s, b in self.fork(st, ('sym', ('ptreq', vkey(A), vkey(B))))]
        return [(st, r == (pred == 'eq'))]

    # ---------------------------------------------------------------- arithmetic on ints
    def trunc(self, st, v, w):
        if w == 1:
            return ('i', 'ne', I(1, v.c, v.t), iconst(1, 0)) if v.t else bool(v.c & 1)
        # atoms of extensions unwrap
        t = {}
        c = v.c
        for a, k in v.t.items():
            A = Atom.byid[a]
            if A.kind == 'ext':
                w0, sg, key = A.key
                if key[0] >= w:
                    c += k * key[1]
                    for x, y in key[2]:
                        t[x] = t.get(x, 0) + k * y
                    continue
            t[a] = t.get(a, 0) + k
        return I(w, c, t)

    def binop(self, st, op, a, b, inst):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if not isinstance(a, I) or not isinstance(b, I):
            if isinstance(a, (tuple, bool)) or isinstance(b, (tuple, bool)):
                return self.boolop(op, a, b)
            raise Undecided('int op on %r %r' % (a, b))
        w = a.w
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        ca, cb = a.const(), b.const()
        if op == 'mul':
            if cb is not None:
                return iscale(a, cb)
            if ca is not None:
                return iscale(b, ca)
        if op == 'shl' and cb is not None:
            return iscale(a, 1 << cb)
        if ca is not None and cb is not None:
            M = (1 << w) - 1
            sa, sb = a.sconst(), b.sconst()
            if op == 'and':
                return iconst(w, ca & cb)
            if op == 'or':
                return iconst(w, ca | cb)
            if op == 'xor':
                return iconst(w, ca ^ cb)
            if op == 'lshr':
                return iconst(w, ca >> cb)
            if op == 'ashr':
                return iconst(w, sa >> cb)
            if op in ('udiv', 'urem') and cb:
                return iconst(w, ca // cb if op == 'udiv' else ca % cb)
            if op in ('sdiv', 'srem') and sb:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return iconst(w, q if op == 'sdiv' else sa - q * sb)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if cb is None:
                zs = self.wraps(st, b, False)
                self.oblige(inst, 'div-by-zero', all(s.facts.i_le({x: -v for x, v in t.items()}, -c + 1) for s, t, c in zs),
                            st, 'division by %r' % b, False)
            elif cb == 0:
                self.oblige(inst, 'div-by-zero', False, st, 'division by zero')
        hi = (1 << w) - 1
        if op == 'and' and cb is not None:
            hi = cb
        elif op == 'lshr' and cb is not None:
            hi = hi >> cb
        elif op == 'udiv' and cb:
            hi = hi // cb
        elif op == 'urem' and cb:
            hi = cb - 1
        if op == 'urem' and cb is None:
            r = atom('iop', (op, a.key(), b.key()), '%s(%r,%r)' % (op, a, b), 0, hi)
            # r < b
            for s, t, c in self.wraps(st, b, False)[:1]:
                if s is st:
                    d = {x: -v for x, v in t.items()}
                    d[r.id] = d.get(r.id, 0) + 1
                    st.facts.i_add_le(d, -c + 1)
                    # identity when a < b
                    wa = self.wraps(st, a, False)
                    if len(wa) == 1 and wa[0][0] is st:
                        _, ta, cc = wa[0]
                        e = dict(ta)
                        for x, v in t.items():
                            e[x] = e.get(x, 0) - v
                        if st.facts.i_le(e, cc - c + 1):
                            return a
                        # a == b  -> 0
                        if st.facts.i_le(e, cc - c) and st.facts.i_le({x: -v for x, v in e.items()}, -(cc - c)):
                            return iconst(w, 0)
                        if not st.facts.i_infeasible(e, cc - c + 1):
                            raise NeedSplit(('i', 'ult', a, b))
                        if not st.facts.i_infeasible({x: -v for x, v in e.items()}, -(cc - c) + 1):
                            raise NeedSplit(('i', 'eq', a, b))
            return iatom(w, r)
        return iatom(w, atom('iop', (op, a.key(), b.key()), '%s(%r,%r)' % (op, a, b), 0, hi))

    def boolop(self, op, a, b):
        def tb(x):
            if isinstance(x, I):
                return bool(x.c & 1) if not x.t else ('i', 'ne', x, iconst(1, 0))
            return x
        a, b = tb(a), tb(b)
        if op == 'and':
            if a is False or b is False:
                return False
            if a is True:
                return b
            if b is True:
                return a
            return ('and', a, b)
        if op == 'or':
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            return ('or', a, b)
        if op in ('xor', 'add', 'sub'):
            if a is True:
                return self.bnot(b)
            if b is True:
                return self.bnot(a)
            if a is False:
                return b
            if b is False:
                return a
            return ('xor', a, b)
        raise Undecided('bool op ' + op)

    @staticmethod
    def bnot(c):
        if isinstance(c, bool):
            return not c
        return ('not', c)

    # ---------------------------------------------------------------- execution
    def operand(self, st, env, v):
        if isinstance(v, Const):
            if v.kind == 'int' and v.ty.bits == 1:
                return bool(v.v)
            return self.const_value(st, v)
        r = env.get(v if isinstance(v, Arg) else v.id)
        if r is None:
            raise Undecided('value %r not available' % (v,))
        return r

    def call(self, st, fname, args):
        """analyse function fname from state st: [(state, return value)]"""
        fn = self.m.functions.get(fname)
        if fn is None or fn.decl:
            raise Undecided('no body for ' + fname)
        self.functions.add(fname)
        self.depth += 1
        try:
            if self.depth > self.max_depth:
                raise Budget('call depth')
            env = {}
            for a, v in zip(fn.args, args):
                env[a] = v
            res = self.region([(st, env, fn.blocks[0], None)], fn, None)
            if self.want_order and self.depth > 1 and len(res['ret']) > 8 and fn.ret.kind == 'void':
                from .loops import join_states, NoHeader
                return [(s, None) for s, _, _ in join_states(self, [(s, {}, NoHeader) for s, _ in res['ret']], NoHeader)]
            return res['ret']
        finally:
            self.depth -= 1

    def region(self, starts, fn, loop):
        """run until return / back edge to loop.header / exit from loop"""
        out = {'ret': [], 'back': [], 'exit': []}
        work = [(st, env, b, prev, -1) for st, env, b, prev in starts]
        while work:
            if self.pick is not None and loop is not None:
                i = self.pick(work, out)
                if i is None:
                    break
                st, env, b, prev, idx = work.pop(i)
            else:
                st, env, b, prev, idx = work.pop()
            if idx < 0:
                idx = 0
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Budget('state budget exhausted in ' + fn.name)
                if self.deadline is not None and time.time() > self.deadline:
                    raise Undecided('time budget exhausted in ' + fn.name)
                self.visited.add((fn.name, b.idx))
                if loop is not None:
                    if b.idx == loop.header.idx and prev is not None and prev.idx in loop.blocks:
                        out['back'].append((st, env, prev))
                        continue
                    if b.idx not in loop.blocks:
                        out['exit'].append((st, env, b, prev))
                        continue
                L = b.loop
                if L is not None and L.header is b and (prev is None or prev.idx not in L.blocks) and \
                        (loop is None or L is not loop):
                    # entering an inner (or the first) loop
                    for kind, leaf in self.do_loop(st, env, L, prev, fn):
                        if kind == 'ret':
                            out['ret'].append(leaf)
                        else:
                            s2, e2, blk, pv = leaf
                            work.append((s2, e2, blk, pv, -1))
                    continue
                # phis
                if prev is not None:
                    vals = []
                    for ins in b.insts:
                        if ins.op != 'phi':
                            break
                        for v, p in ins.incoming:
                            if p is prev:
                                vals.append((ins.id, self.operand(st, env, v)))
                                break
                        idx += 1
                    if vals:
                        env = dict(env)
                        for k, v in vals:
                            env[k] = v
            self.run_block(st, env, b, idx, fn, work, out)
        return out

    def run_block(self, st, env, b, idx, fn, work, out):
        insts = b.insts
        env = dict(env)
        n = len(insts)
        while idx < n:
            ins = insts[idx]
            op = ins.op
            if op == 'phi':
                idx += 1
                continue
            self.cur = ins
            try:
                if op == 'br':
                    if len(ins.succs) == 1:
                        work.append((st, env, ins.succs[0], b, -1))
                        return
                    c = self.operand(st, env, ins.ops[0])
                    fk = self.fork(st, c)
                    if len(fk) > 1 and b.loop is not None:
                        self.note_exit_fork(ins, c, b, fk)
                    for s, t in fk:
                        work.append((s, env, ins.succs[0 if t else 1], b, -1))
                    return
                if op == 'switch':
                    v = self.operand(st, env, ins.ops[0])
                    states = [st]
                    for i, cv in enumerate(ins.ops[1:]):
                        nxt = []
                        for s in states:
                            for s2, t in self.fork_i(s, 'eq', v, iconst(v.w, cv.v)):
                                if t:
                                    work.append((s2, env, ins.succs[i + 1], b, -1))
                                else:
                                    nxt.append(s2)
                        states = nxt
                    for s in states:
                        work.append((s, env, ins.succs[0], b, -1))
                    return
                if op == 'ret':
                    v = self.operand(st, env, ins.ops[0]) if ins.ops else None
                    if isinstance(v, (bool, tuple)):
                        v = self.bool_int(st, v, 1)
                    out['ret'].append((st, v))
                    return
                if op == 'unreachable':
                    return
                if op == 'call':
                    res = self.do_call(st, env, ins, fn)
                    if res is None:
                        idx += 1
                        continue
                    if len(res) == 1:
                        st, v = res[0]
                        if v is not None:
                            env[ins.id] = v
                        idx += 1
                        continue
                    for s, v in res:
                        e = dict(env)
                        if v is not None:
                            e[ins.id] = v
                        work.append((s, e, b, None, idx + 1))
                    return
                if op == 'select':
                    c = self.operand(st, env, ins.ops[0])
                    x = self.operand(st, env, ins.ops[1])
                    y = self.operand(st, env, ins.ops[2])
                    if isinstance(x, (bool, tuple)) or isinstance(y, (bool, tuple)):
                        # boolean select = and/or
                        env[ins.id] = self.boolop('or', self.boolop('and', c, x), self.boolop('and', self.bnot(c), y))
                        if x is True:
                            env[ins.id] = self.boolop('or', c, y)
                        elif y is False:
                            env[ins.id] = self.boolop('and', c, x)
                        idx += 1
                        continue
                    fk = self.fork(st, c)
                    if len(fk) == 1:
                        st = fk[0][0]
                        env[ins.id] = x if fk[0][1] else y
                        idx += 1
                        continue
                    for s, t in fk:
                        e = dict(env)
                        e[ins.id] = x if t else y
                        work.append((s, e, b, None, idx + 1))
                    return
                if op in ('zext', 'sext', 'uitofp', 'sitofp') and ins.ops[0].ty.kind == 'int' and ins.ops[0].ty.bits == 1:
                    c = self.operand(st, env, ins.ops[0])
                    fk = self.fork(st, c)
                    for s, t in fk:
                        one = (-1 if op in ('sext', 'sitofp') else 1) if t else 0
                        v = iconst(ins.ty.bits, one) if op in ('zext', 'sext') else fconst(one)
                        if len(fk) == 1:
                            st = s
                            env[ins.id] = v
                        else:
                            e = dict(env)
                            e[ins.id] = v
                            work.append((s, e, b, None, idx + 1))
                    if len(fk) == 1:
                        idx += 1
                        continue
                    return
                self.simple(st, env, ins)
                idx += 1
            except NeedSplit as ns:
                for s, t in self.fork(st, ns.cond):
                    work.append((s, env, b, None, idx))
                return
            except NeedSplitStates as ns:
                for s, v in ns.states:
                    e = dict(env)
                    e[ins.id] = v
                    work.append((s, e, b, None, idx + 1))
                return

    def note_exit_fork(self, ins, c, b, fk):
        if not self.unrolling or len({t for _, t in fk}) < 2:
            return
        L, rec = self.unrolling[-1]
        if self.force_step and any(i.op == 'load' for x in L.fn.blocks if x.idx in L.blocks for i in x.insts):
            return
        if b.fn is L.fn and b.idx in L.blocks and any(x.idx not in L.blocks for x in ins.succs) and cond_has_int(c):
            rec['int_exit'] = True

    def bool_int(self, st, v, w):
        if isinstance(v, bool):
            return iconst(w, int(v))
        return v

    def simple(self, st, env, ins):
        op = ins.op
        O = lambda i: self.operand(st, env, ins.ops[i])
        if op == 'load':
            self.sub_index(st, env, ins, ins.ops[0])
            v = self.load(st, ins, O(0), ins.ty)
            if ins.ty.kind == 'int' and ins.ty.bits == 1 and isinstance(v, I):
                v = ('i', 'ne', v, iconst(v.w, 0)) if v.t else bool(v.c)
        elif op == 'store':
            x = O(0)
            if isinstance(x, (bool, tuple)):
                x = self.bool_int(st, x, 8)
                if not isinstance(x, I):
                    raise NeedSplit(x)
            self.sub_index(st, env, ins, ins.ops[1])
            if x is UNDEF or isinstance(x, F) and x.sp == 'undef':
                d = O(1)
                if isinstance(d, Ptr) and d.obj in st.mem and st.mem[d.obj].kind != 'stack':
                    self.oblige(ins, 'undef-store', False, st, 'an uninitialised value is stored in %s' % st.mem[d.obj].name, st.exact)
            self.store(st, ins, O(1), x, ins.ops[0].ty.size)
            return
        elif op == 'getelementptr':
            idx = [self.operand(st, env, x) for x in ins.ops[1:]]
            v = self.gep(st, O(0), ins.gep, idx)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = O(0), O(1)
            a = UNDEFF if a is UNDEF else a
            b = UNDEFF if b is UNDEF else b
            if a.sp == 'undef' or b.sp == 'undef':
                v = UNDEFF
            else:
                if self.opaque_nl and not a.sp and not b.sp and ((op == 'fmul' and a.isconst() is None and b.isconst() is None) or
                                                                 (op == 'fdiv' and b.isconst() is None)):
                    v = opq(op, a, b)
                    if self.div_lemma and op == 'fdiv':
                        self.shrink(st, v, a, b)
                else:
                    v = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}[op](a, b)
        elif op == 'fneg':
            a = O(0)
            v = fneg(a) if a is not UNDEF else UNDEFF
        elif op == 'frem':
            v = opq('frem', O(0), O(1))
        elif op == 'fcmp':
            a, b = O(0), O(1)
            if a is UNDEF or b is UNDEF:
                v = UNDEF
            else:
                v = ('f', ins.pred, a, b)
        elif op == 'icmp':
            a, b = O(0), O(1)
            if a is UNDEF or b is UNDEF:
                v = UNDEF
            elif isinstance(a, I) and isinstance(b, I):
                if not a.t and not b.t:
                    v = self.fork_i(st, ins.pred, a, b)[0][1]
                else:
                    v = ('i', ins.pred, a, b)
            elif isinstance(a, (bool, tuple)) or isinstance(b, (bool, tuple)):
                x = self.boolop('xor', a, b)
                v = x if ins.pred == 'ne' else self.bnot(x)
            else:
                v = ('p', ins.pred, a, b)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            v = self.binop(st, op, O(0), O(1), ins)
        elif op in ('zext', 'sext'):
            a = O(0)
            if a is UNDEF:
                v = UNDEF
            else:
                ws = self.wraps(st, a, op == 'sext')
                if len(ws) == 1 and ws[0][0] is st:
                    v = I(ins.ty.bits, ws[0][2], ws[0][1])
                elif not ws:
                    raise Undecided('infeasible')
                elif all(Atom.byid[x].kind != 'bits' and Atom.byid[x].kind != 'iop' for x in a.t) and len(a.t) <= 3:
                    # split on wrap-around
                    M = 1 << a.w
                    t, c = a.lin()
                    v = None
                    if len(ws) == 1:
                        st.facts = ws[0][0].facts
                        v = I(ins.ty.bits, ws[0][2], ws[0][1])
                    else:
                        raise NeedSplitStates([(w[0], I(ins.ty.bits, w[2], w[1])) for w in ws])
                else:
                    v = self.ext_form(st, a, ins.ty.bits, op == 'sext')
        elif op == 'trunc':
            a = O(0)
            v = UNDEF if a is UNDEF else self.trunc(st, a, ins.ty.bits)
        elif op in ('uitofp', 'sitofp'):
            v = self.int_to_float(st, O(0), op == 'sitofp')
            if ins.ty.kind == 'float' and not v.sp and (v.isconst() is None or abs(v.isconst()) > 1 << 24):
                v = opq('fptrunc', v)       # single precision
        elif op in ('fptoui', 'fptosi'):
            v = self.float_to_int(st, O(0), ins.ty.bits, op == 'fptosi', ins)
        elif op in ('fpext', 'fptrunc'):
            v = O(0) if op == 'fpext' else opq('fptrunc', O(0))
        elif op == 'bitcast':
            v = self.coerce(st, O(0), ins.ty)
        elif op == 'freeze':
            v = O(0)
        elif op == 'ptrtoint':
            a = O(0)
            if isinstance(a, Null):
                v = iconst(ins.ty.bits, 0)
            else:
                v = iatom(ins.ty.bits, atom('ptrint', vkey(a), 'int(%r)' % (a,), 1, (1 << ins.ty.bits) - 1))
        elif op == 'inttoptr':
            a = O(0)
            if isinstance(a, I) and a.const() == 0:
                v = NULL
            elif isinstance(a, I) and len(a.t) == 1 and a.c == 0 and Atom.byid[next(iter(a.t))].kind == 'ptrint':
                raise Undecided('inttoptr')
            else:
                v = Sym('inttoptr(%r)' % (a,))
        elif op == 'alloca':
            cnt = O(0)
            self.oblige(ins, 'vla', cnt.const() is not None, st, 'stack allocation of dynamic size %r' % cnt)
            c = cnt.const()
            o = self.new_obj(st, ins.name or 'tmp', ins.aty.size * c if c is not None else None, 'stack')
            v = Ptr(o.id, iconst(64, 0))
        elif op in ('extractvalue', 'insertvalue'):
            raise Undecided('aggregate value at ' + where(ins))
        else:
            raise Undecided('instruction %s at %s' % (op, where(ins)))
        env[ins.id] = v

    def shrink(self, st, v, a, b):
        """dividing by a number of magnitude at least one keeps the sign rule and does not increase the magnitude"""
        from .loops import entails_le
        f = st.facts
        one, zero = fconst(1), fconst(0)
        if entails_le(f, one, b):
            w = v
        elif entails_le(f, b, fneg(one)):
            w = fneg(v)
        else:
            return
        if not a.sp and all(f.isnan(g) is False for g in a.gens()):
            f.set_nan(v.single().id, False)
        if entails_le(f, zero, a):
            f.f_add(fneg(w).num, False, 1)
            f.f_add(fsub(w, a).num, False, 1)
        elif entails_le(f, a, zero):
            f.f_add(w.num, False, 1)
            f.f_add(fsub(a, w).num, False, 1)

    def int_to_float(self, st, a, signed):
        if a is UNDEF:
            return UNDEFF
        c = a.const()
        if c is not None:
            return fconst(a.sconst() if signed else c)
        ws = self.wraps(st, a, signed)
        if len(ws) == 1 and ws[0][0] is st:
            _, t, c = ws[0]
            base = I(64, 0, t)
            g = gen('uitof', (64, (c % (1 << 64)), tuple(sorted(t.items()))), 'real(%r)' % I(64, c, t), nonneg=not signed, nan=False)
            if not signed:
                return fgen(g)
            neg = {x: -v for x, v in t.items()}
            if st.facts.i_le(neg, -c):
                return fgen(gen('uitof', (64, (c % (1 << 64)), tuple(sorted(t.items()))), 'real(%r)' % I(64, c, t), nonneg=True, nan=False))
            return fgen(gen('sitof', a.key(), 'real(%r)' % a, nan=False))
        return fgen(gen('sitof' if signed else 'uitofw', a.key(), 'real(%r)' % a, nonneg=not signed, nan=False))

    def float_to_int(self, st, a, w, signed, ins):
        if a.sp:
            self.oblige(ins, 'fptoint', False, st, 'conversion of %r to an integer' % a, a.sp != 'undef')
            return iatom(w, fresh_atom('badconv', 0, (1 << w) - 1))
        c = a.isconst()
        if c is not None:
            k = int(c)
            ok = (-(1 << (w - 1)) <= k < (1 << (w - 1))) if signed else (0 <= k < (1 << w))
            self.oblige(ins, 'fptoint', ok, st, 'conversion of %s out of range' % c)
            return iconst(w, k)
        lo, hi = ((-(1 << (w - 1)), (1 << (w - 1))) if signed else (0, 1 << w))
        f = st.facts
        E = a
        ok = False
        if E.den == P1:
            low = padd(E.num, {ONE: Fr(lo - 1)}, -1)      # a - (lo-1) > 0
            high = padd(E.num, {ONE: Fr(hi)}, -1)         # a - hi < 0
            ok = f.f_infeasible(low, False, 1) and f.f_infeasible(high, False, -1) and \
                all(f.isnan(g) is False for g in E.gens())
        self.oblige(ins, 'fptoint', ok, st, 'conversion of %r to a %d-bit %ssigned integer not shown in range' % (a, w, '' if signed else 'un'), False)
        at = atom('fptoint', (w, signed, a.key()), 'int(%r)' % a, 0 if not signed else -(1 << (w - 1)), (hi - 1))
        return iatom(w, at)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, env, ins, fn):
        cal = ins.callee
        if isinstance(cal, Const) and cal.kind == 'func':
            name = cal.v
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.experimental'):
                return None
        args = [self.operand(st, env, a) for a in ins.ops]
        if isinstance(cal, Const) and cal.kind == 'func':
            tgt = Fn(cal.v)
        else:
            tgt = self.operand(st, env, cal)
        return self.invoke(st, tgt, args, ins)

    def invoke(self, st, tgt, args, ins):
        if isinstance(tgt, Fn):
            name = tgt.name
            self.calls.add(name)
            h = self.models.get(name)
            if h is not None:
                return h(self, st, ins, args)
            if name in self.boundaries:
                return self.boundaries[name](self, st, ins, args)
            if name.startswith('llvm.'):
                return self.intrinsic(st, name, args, ins)
            f = self.m.functions.get(name)
            if f is not None and not f.decl:
                return self.call(st, name, args)
            raise Undecided('call of external function %s at %s' % (name, where(ins)))
        if isinstance(tgt, Sym):
            h = self.models.get('*' + tgt.name)
            self.oblige(ins, 'callee', not (st.facts.null.get(tgt.name) is True), st, 'call through a null pointer')
            if st.facts.null.get(tgt.name) is None and tgt.name in st.extra.get('maybe_null', ()):
                self.oblige(ins, 'callee', False, st, 'call through %s, which may be null here' % tgt.name)
            if h is not None:
                return h(self, st, ins, args)
            raise Undecided('indirect call of %r at %s' % (tgt, where(ins)))
        if isinstance(tgt, Null):
            self.oblige(ins, 'callee', False, st, 'call through a null pointer')
            return []
        raise Undecided('indirect call %r at %s' % (tgt, where(ins)))

    def intrinsic(self, st, name, args, ins):
        if name.startswith('llvm.fabs'):
            a = args[0]
            if a.sp:
                return [(st, INF if a.sp == '-inf' else a)]
            out = []
            for s, t in self.fork_f(st, 'olt', a, fconst(0)):
                out.append((s, fneg(a) if t else a))
            return out
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s, n = args[0], args[1], args[2].const()
            if n is None or not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.off.const() is None or s.off.const() is None:
                raise Undecided('memcpy at ' + where(ins))
            self.check_access(st, ins, s, n, 'read')
            self.check_access(st, ins, d, n, 'write')
            so = st.mem[s.obj]
            do = st.wobj(d.obj)
            for k in [k for k in do.cells if d.off.c <= k < d.off.c + n]:
                del do.cells[k]
            for k, v in so.cells.items():
                if s.off.c <= k < s.off.c + n:
                    do.cells[k - s.off.c + d.off.c] = v
            if so.init == 'lazy':
                do.init = 'lazy' if do.kind == 'stack' else do.init
            st.wlog = st.wlog + ((d.obj, d.off.c, ins, None),)
            return [(st, None)]
        if name.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2].const()
            if n is None or not isinstance(d, Ptr) or d.off.const() is None or v.const() != 0:
                raise Undecided('memset at ' + where(ins))
            self.check_access(st, ins, d, n, 'write')
            do = st.wobj(d.obj)
            for k in [k for k in do.cells if d.off.c <= k < d.off.c + n]:
                del do.cells[k]
            if d.off.c == 0 and do.size is not None and do.size.const() == n:
                do.init = 'zero'
            else:
                for k in range(d.off.c, d.off.c + n, 8):
                    do.cells[k] = iconst(64, 0)
            st.wlog = st.wlog + ((d.obj, d.off.c, ins, None),)
            return [(st, None)]
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            return [(st, fadd(fmul(args[0], args[1]), args[2]))]
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[name.split('.')[1]]
            return [(s, args[0] if t else args[1]) for s, t in self.fork_i(st, p, args[0], args[1])]
        raise Undecided('intrinsic %s at %s' % (name, where(ins)))

    # ---------------------------------------------------------------- loops: see loops.py
    def do_loop(self, st, env, L, prev, fn):
        from . import loops
        return loops.do_loop(self, st, env, L, prev, fn)


def cond_has_int(c):
    if not isinstance(c, tuple):
        return False
    if c[0] in ('i', 'p', 'sym'):
        return True
    if c[0] in ('and', 'or', 'xor', 'not'):
        return any(cond_has_int(x) for x in c[1:])
    return False


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class NeedSplitStates(Exception):
    def __init__(self, states):
        self.states = states
