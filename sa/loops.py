"""Loop treatment: bounded stepping when every exit is decided early, summaries otherwise."""
import itertools
import os
from fractions import Fraction as Fr
from .alg import *
from . import alg
from .engine import Undecided, Budget, LoopEvent, where, vkey, State, cond_has_int
from .subst import Subst, J, mksum, mkred, mkcases, has_atom_gen


class LoopW:
    """placeholder for the unknown writes of earlier iterations"""

    def __init__(self, uid):
        self.uid = uid

    def key(self):
        return ('loop', self.uid)

    def __eq__(self, o):
        return isinstance(o, LoopW) and o.uid == self.uid

    def __hash__(self):
        return self.uid

    def __repr__(self):
        return 'loop%d' % self.uid


class NotStepped(Exception):
    pass


def do_loop(E, st, env, L, prev, fn):
    E.loop_uid += 1
    save = E.nstates
    try:
        r = step_through(E, st, env, L, prev, fn)
        E.loop_log.append((fn.name, header_line(L), 'stepped'))
        return r
    except NotStepped:
        pass
    r = Summary(E, st, env, L, prev, fn).run()
    E.loop_log.append((fn.name, header_line(L), 'summarised'))
    return r


def header_line(L):
    for i in L.header.insts:
        if i.line:
            return i.line
    for b in L.fn.blocks:
        if b.idx in L.blocks:
            for i in b.insts:
                if i.line:
                    return i.line
    return 0


def step_through(E, st, env, L, prev, fn):
    rec = {}
    out = []
    E.unrolling.append((L, rec))
    try:
        live = [(st.copy(), env, prev)]
        for it in range(E.MAXU + 1):
            nxt = []
            for s, e, p in live:
                rec['int_exit'] = False
                r = region_from_header(E, s, e, L, p, fn)
                if rec['int_exit']:
                    raise NotStepped()
                out += [('exit', x) for x in r['exit']]
                out += [('ret', x) for x in r['ret']]
                nxt += r['back']
                if E.leaf_hook is not None:
                    E.leaf_hook(L, it, s, r)
                if len(nxt) > E.MAXLIVE:
                    if E.want_order:
                        break
                    raise NotStepped()
            if not nxt:
                return out
            if len(nxt) > 3 and E.want_order:
                j = join_states(E, nxt, L)
                nxt = j
            live = nxt
        raise NotStepped()
    finally:
        E.unrolling.pop()


def region_from_header(E, s, e, L, prev, fn):
    """one iteration: phis resolved from prev"""
    env = dict(e)
    vals = []
    for ins in L.header.insts:
        if ins.op != 'phi':
            break
        for v, p in ins.incoming:
            if p is prev:
                vals.append((ins.id, E.operand(s, e, v)))
    for k, v in vals:
        env[k] = v
    return E.region([(s, env, L.header, None)], fn, L)


class NoHeader:
    """join of the states at the end of a call"""
    class header:
        insts = ()
    idx = -1


# ---------------------------------------------------------------- join of partitions (abstract union)

def join_states(E, leaves, L):
    """merge back-edge states that agree on everything but float cells"""
    groups = {}
    hdr = [i for i in L.header.insts if i.op == 'phi']
    for s, e, p in leaves:
        key = [p.idx]
        for ph in hdr:
            v = E.operand(s, e, next(x for x, q in ph.incoming if q is p))
            if not isinstance(v, F):
                key.append(vkey(v))
        for oid in sorted(s.mem):
            o = s.mem[oid]
            for k in sorted(o.cells):
                v = o.cells[k]
                if not isinstance(v, F):
                    key.append((oid, k, vkey(v)))
            key.append((oid, tuple((vkey(a), vkey(b)) for a, b in o.writes)))
        key.append(tuple(repr(x) for x in s.events))
        groups.setdefault(tuple(key), []).append((s, e, p))
    out = []
    for g in groups.values():
        if len(g) == 1:
            out.append(g[0])
            continue
        s0, e0, p0 = g[0]
        n = s0.copy()
        diff = []
        for oid in s0.mem:
            offs = set()
            for s, _, _ in g:
                if oid in s.mem:
                    offs |= set(s.mem[oid].cells)
            for k in offs:
                vs = [s.mem[oid].cells.get(k) if oid in s.mem else None for s, _, _ in g]
                if any(v is None for v in vs):
                    if oid in n.mem and k in n.mem[oid].cells:
                        del n.wobj(oid).cells[k]
                    continue
                if any(v != vs[0] for v in vs):
                    diff.append((oid, k, vs))
        env = dict(e0)
        ediff = []
        for ph in hdr:
            vs = [E.operand(s, e, next(x for x, q in ph.incoming if q is p)) for s, e, p in g]
            src = next(x for x, q in ph.incoming if q is p0)
            if any(v != vs[0] for v in vs) and hasattr(src, 'id'):
                ediff.append((src.id, vs))
        # common facts
        common = []
        for con in s0.facts.fl:
            if all(con in s.facts.fl for s, _, _ in g[1:]):
                common.append(con)
        n.facts.fl = tuple(common)
        n.facts.fne = tuple(k for k in s0.facts.fne if all(k in s.facts.fne for s, _, _ in g[1:]))
        n.facts.il = tuple(k for k in s0.facts.il if all(k in s.facts.il for s, _, _ in g[1:]))
        n.facts.ine = tuple(k for k in s0.facts.ine if all(k in s.facts.ine for s, _, _ in g[1:]))
        n.facts.nan = {k: v for k, v in s0.facts.nan.items() if all(s.facts.nan.get(k) == v for s, _, _ in g[1:])}
        new = []
        for oid, k, vs in diff:
            v = alg.fvar('%s+%d~' % (n.mem[oid].name, k), info='join')
            nn = all(all(s.facts.isnan(x) is False for x in val.gens()) and not val.sp for (s, _, _), val in zip(g, vs))
            if nn:
                n.facts.set_nan(v.single().id, False)
            n.wobj(oid).cells[k] = v
            new.append((oid, k, v, vs))
        for iid, vs in ediff:
            if not all(isinstance(v, F) for v in vs):
                raise Undecided('join of integers')
            v = alg.fvar('phi%d~' % iid, info='join')
            env[iid] = v
        # pairwise order with the other float cells of the same object
        for oid, k, v, vs in new:
            for k2, w in sorted(n.mem[oid].cells.items()):
                if k2 == k or not isinstance(w, F) or w.sp:
                    continue
                for sgn in (1, -1):
                    ok = True
                    for (s, _, _), val in zip(g, vs):
                        w2 = s.mem[oid].cells[k2]
                        if not entails_le(s.facts, val, w2) if sgn == 1 else not entails_le(s.facts, w2, val):
                            ok = False
                            break
                    if ok:
                        d = fsub(v, w) if sgn == 1 else fsub(w, v)
                        n.facts.f_add(d.num, False, 1)
        seen = {(w[0], vkey(w[1])) for w in n.wlog}
        for s, _, _ in g[1:]:
            for w in s.wlog:
                if (w[0], w[1] if isinstance(w[1], int) else vkey(w[1])) not in seen:
                    seen.add((w[0], w[1] if isinstance(w[1], int) else vkey(w[1])))
                    n.wlog = n.wlog + (w,)
        n.exact = False
        out.append((n, env, p0))
    return out


def entails_le(facts, a, b):
    """facts => a <= b (values ordered)"""
    if a.sp or b.sp:
        return False
    d = fsub(a, b)
    if not d.num:
        return True
    if d.den == P1:
        return facts.f_infeasible(d.num, True, -1)
    sg = facts.f_sign(d.den)
    if sg == '+':
        return facts.f_infeasible(d.num, True, -1)
    if sg == '-':
        return facts.f_infeasible(d.num, True, 1)
    return False


def entails_lt(facts, a, b):
    if a.sp or b.sp:
        return False
    d = fsub(a, b)
    if d.den != P1:
        return False
    return facts.f_infeasible(d.num, False, -1)


# ---------------------------------------------------------------- summaries


class Summary:
    def __init__(self, E, st, env, L, prev, fn):
        self.E, self.st, self.env, self.L, self.prev, self.fn = E, st, env, L, prev, fn
        self.uid = E.loop_uid
        self.line = header_line(L)
        self.tag = '%s:%s#%d' % (fn.name, self.line, self.uid)
        self.phis = [i for i in L.header.insts if i.op == 'phi']
        self.init = {}
        for ph in self.phis:
            for v, p in ph.incoming:
                if p is prev:
                    self.init[('phi', ph.id)] = E.operand(st, env, v)
        self.names = {('phi', ph.id): (ph.name or 'phi%d' % ph.id) for ph in self.phis}
        self.ptype = {('phi', ph.id): ph.ty for ph in self.phis}
        self.W = {}             # ('cell', oid, off) -> init value
        self.pend = {}          # obligations of the last round
        self.gather = False     # keep those of several rounds
        self.arrs = set()
        self.k = atom('k', ('loop', self.uid), 'k%d' % self.uid, 0, 1 << 62)
        ex = [(b, i) for b in fn.blocks if b.idx in L.blocks for i in b.insts
              if i.op in ('br', 'switch', 'ret') and (i.op == 'ret' or any(x.idx not in L.blocks for x in i.succs))]
        E.kinfo[self.k.id] = len(ex) == 1 and ex[0][1].op == 'br' and len(ex[0][1].succs) == 2 and \
            getattr(ex[0][1].ops[0], 'op', None) == 'icmp'

    # generic value for a loop variable
    def lv(self, var, init):
        nm = self.names.get(var) or '%s+%s' % (self.st.mem[var[1]].name, var[2])
        if isinstance(init, F) or (init is UNDEF and self.ptype.get(var) is not None and self.ptype[var].kind == 'double'):
            return fgen(gen('lv', (self.uid, var), '%s@L%d' % (nm, self.line)))
        if isinstance(init, I):
            return iatom(init.w, atom('lv', (self.uid, var), '%s@L%d' % (nm, self.line), 0, (1 << init.w) - 1))
        if isinstance(init, Ptr):
            return Ptr(init.obj, iatom(64, atom('lv', (self.uid, var, 'off'), '%s.off@L%d' % (nm, self.line), 0, 1 << 62)))
        if isinstance(init, (bool, tuple)):
            raise Undecided('boolean loop variable at %s' % self.tag)
        if init is UNDEF:
            t = self.ptype.get(var)
            if t is not None and t.kind == 'int':
                return iatom(t.bits, atom('lv', (self.uid, var), '%s@L%d' % (nm, self.line), 0, (1 << t.bits) - 1))
        return init     # symbolic pointers: assumed invariant, verified

    def vars(self):
        return list(self.init.items()) + list(self.W.items())

    def generic(self, values, inv):
        E = self.E
        gs = self.st.copy()
        gs.events = ()
        gs.wlog = ()
        env = dict(self.env)
        for var, v in values.items():
            if var[0] == 'phi':
                env[var[1]] = v
            else:
                o = gs.wobj(var[1])
                E.set_cell(o, var[2], v, E.vsize(v))
        for oid in self.arrs:
            o = gs.wobj(oid)
            o.writes = o.writes + ((LoopW(self.uid), LoopW(self.uid)),)
        for (t, c) in inv:
            gs.facts.i_add_le(t, c)
        for g in self.nonnan:
            gs.facts.set_nan(g, False)
        for p, strict in self.finv:
            gs.facts.f_add(p, strict, 1)
        return gs, env

    def iterate(self, values, inv):
        """one generic iteration; discovers written cells (restart when new)"""
        E = self.E
        gs, env = self.generic(values, inv)
        for g, ok in self.feas0:
            pass
        # what an exploratory round finds is believed only once the values and invariants are final
        outer, E.obl = E.obl, {}
        try:
            r = E.region([(gs, env, self.L.header, None)], self.fn, self.L)
        finally:
            if not self.gather:
                self.pend = {}
            merge_obl(self.pend, E.obl)
            E.obl = outer
        new = False
        for kind in ('back', 'exit'):
            for leaf in r[kind]:
                if kind == 'exit':
                    pass
                for oid, off, ins, v in leaf[0].wlog:
                    if oid not in self.st.mem:
                        continue
                    o = self.st.mem[oid]
                    if o.elem is not None:
                        if oid not in self.arrs and kind == 'back':
                            self.arrs.add(oid)
                            new = True
                        continue
                    if not isinstance(off, int):
                        raise Undecided('symbolic store in loop %s' % self.tag)
                    var = ('cell', oid, off)
                    if kind == 'back' and var not in self.W:
                        iv = o.cells.get(off)
                        if iv is None:
                            if o.init == 'lazy':
                                # create the initial value lazily, typed like the new value
                                cur = leaf[0].mem[oid].cells.get(off)
                                if isinstance(cur, F):
                                    iv = fgen(gen('in', (oid, off), '%s+%d' % (o.name, off) if E.lazy_hook is None else E.lazy_hook(o, off)))
                                elif isinstance(cur, I):
                                    iv = iatom(cur.w, atom('in', (oid, off, cur.w), '%s+%d' % (o.name, off) if E.lazy_hook is None else E.lazy_hook(o, off), 0, (1 << cur.w) - 1))
                                else:
                                    iv = UNDEF
                                self.st.wobj(oid).cells[off] = iv
                            elif o.init == 'zero':
                                cur = leaf[0].mem[oid].cells.get(off)
                                iv = fconst(0) if isinstance(cur, F) else (iconst(cur.w, 0) if isinstance(cur, I) else NULL)
                                self.st.wobj(oid).cells[off] = iv
                            else:
                                cur = leaf[0].mem[oid].cells.get(off)
                                iv = UNDEFF if isinstance(cur, F) else UNDEF
                                if isinstance(cur, I):
                                    self.ptype[var] = None
                                    iv = iatom(cur.w, fresh_atom('uninit', 0, (1 << cur.w) - 1))
                        self.W[var] = iv
                        new = True
        return r, new

    def next_of(self, var, leaf):
        s, e, p = leaf
        if var[0] == 'phi':
            ph = next(x for x in self.phis if x.id == var[1])
            for v, q in ph.incoming:
                if q is p:
                    return self.E.operand(s, e, v)
        return s.mem[var[1]].cells.get(var[2])

    def run(self):
        try:
            return self.run1()
        except Undecided:
            # the loop could not be summarised: nothing found in it is definite
            for o in self.pend.values():
                if o['status'] == 'fail' and o['kind'] not in ('undef-branch', 'initialised'):
                    o['status'] = 'unknown'
            merge_obl(self.E.obl, self.pend)
            raise

    def run1(self):
        values, inv, steps = self.prepare()
        # 4. relations q = F(p) and float order templates
        values, r = self.relations(values, inv)
        if self.E.want_order:
            values, r = self.orders(values, inv, r)
        # 5. closed forms
        return self.finish(values, inv, r, steps)

    def prepare(self):
        E = self.E
        self.nonnan = set()
        self.finv = []
        self.feas0 = []
        # 1. discover written cells
        for _ in range(12):
            values = {v: self.lv(v, i) for v, i in self.vars()}
            r, new = self.iterate(values, [])
            if not new:
                break
        else:
            raise Undecided('loop write set does not stabilise: ' + self.tag)
        # 2. induction variables
        steps = {}
        for var, init in self.vars():
            lv = values[var]
            form = lv.off if isinstance(lv, Ptr) else lv
            if not isinstance(form, I) or not form.t or not isinstance(init, (I, Ptr)):
                continue
            ds = set()
            for leaf in r['back']:
                nx = self.next_of(var, leaf)
                if isinstance(lv, Ptr):
                    if not isinstance(nx, Ptr) or nx.obj != lv.obj:
                        ds.add(None)
                        continue
                    nx = nx.off
                if not isinstance(nx, I):
                    ds.add(None)
                    continue
                d = isub(nx, form)
                ds.add(d.sconst() if not d.t else None)
            if len(ds) == 1 and None not in ds:
                steps[var] = ds.pop()
        kf = iatom(64, self.k)

        def closed_iv(var):
            init = self.init.get(var, self.W.get(var))
            i0 = init.off if isinstance(init, Ptr) else init
            f = iadd(i0, I(i0.w, 0, {self.k.id: steps[var]}))
            return Ptr(init.obj, f) if isinstance(init, Ptr) else f
        base = {}
        for v, i in self.vars():
            base[v] = closed_iv(v) if v in steps else self.lv(v, i)
        values = dict(base)
        # 3. integer invariants (bounds of the induction variables)
        inv = []
        r, new = self.iterate(values, [])
        if new:
            raise Undecided('loop write set grew: ' + self.tag)
        inv = self.int_invariants(r, values, steps)
        return values, inv, steps

    def int_invariants(self, r, values, steps):
        E = self.E
        cands = []
        kid = self.k.id
        for leaf in list(r['back']) + list(r['exit']):
            env = leaf[1]
            for b in self.fn.blocks:
                if b.idx not in self.L.blocks:
                    continue
                for ins in b.insts:
                    if ins.op != 'icmp':
                        continue
                    try:
                        a = E.operand(leaf[0], env, ins.ops[0])
                        c = E.operand(leaf[0], env, ins.ops[1])
                    except Undecided:
                        continue
                    if isinstance(a, Ptr) and isinstance(c, Ptr) and a.obj == c.obj:
                        a, c = a.off, c.off
                    if not isinstance(a, I) or not isinstance(c, I):
                        continue
                    ta, ca = a.lin()
                    tc, cc = c.lin()
                    d = dict(ta)
                    for x, v in tc.items():
                        d[x] = d.get(x, 0) - v
                    d = {x: v for x, v in d.items() if v}
                    if kid not in d or any(Atom.byid[x].kind == 'lv' for x in d):
                        continue
                    for off in (0, 1, -1):
                        cands.append((d, ca - cc + off))
                        cands.append(({x: -v for x, v in d.items()}, -(ca - cc) + off))
        # ranges of the induction variables themselves
        for var in steps:
            v = values[var]
            f = v.off if isinstance(v, Ptr) else v
            t, c = f.lin()
            if f.w <= 64:
                cands.append((t, c - ((1 << f.w) - 1)))
                cands.append(({x: -y for x, y in t.items()}, -c))
        uniq = []
        for t, c in cands:
            key = (tuple(sorted(t.items())), c)
            if key not in [u[2] for u in uniq]:
                uniq.append((t, c, key))
        # hold on entry (k = 0)
        live = []
        for t, c, key in uniq:
            t0 = {x: v for x, v in t.items() if x != kid}
            if self.st.facts.i_le(t0, c):
                live.append((t, c))
        # inductive
        for _ in range(6):
            if not live:
                return []
            rr, _ = self.iterate(values, live)
            keep = []
            for t, c in live:
                c1 = c + t.get(kid, 0)      # k -> k+1
                if all(leaf[0].facts.i_le(t, c1) for leaf in rr['back']):
                    keep.append((t, c))
            if len(keep) == len(live):
                return live
            live = keep
        return []

    def relations(self, values, inv):
        """equalities q == F(p) holding on entry, kept when every iteration preserves them"""
        fl = [(v, i) for v, i in self.vars() if isinstance(i, F) and isinstance(values[v], F)]
        opts = []
        for q, qi in fl:
            g = qi.single() if not qi.sp else None
            if g is None or g.kind != 'fun' or len(g.key[1]) < 1:
                continue
            name, args = g.key
            c = []
            for p, pi in fl:
                if p == q or pi.sp:
                    continue
                for ai, a in enumerate(args):
                    if a == ('F', pi.key()):
                        c.append((p, ai, name, args))
            if c:
                opts.append((q, c))
        if not opts:
            r, _ = self.iterate(values, inv)
            return values, r
        from .subst import mkfun
        combos = list(itertools.product(*[[None] + c for _, c in opts]))
        combos.sort(key=lambda x: sum(1 for y in x if y is None))
        best = None
        for combo in combos[:80]:
            vals = dict(values)
            chosen = []
            for (q, _), c in zip(opts, combo):
                if c is None:
                    continue
                p, ai, name, args = c
                na = tuple(('F', values[p].key()) if i == ai else a for i, a in enumerate(args))
                vals[q] = mkfun(name, na)
                chosen.append((q, c))
            # a relation whose argument is itself related is not supported
            r, _ = self.iterate(vals, inv)
            ok = True
            for q, (p, ai, name, args) in chosen:
                for leaf in r['back']:
                    nq, np_ = self.next_of(q, leaf), self.next_of(p, leaf)
                    if not isinstance(np_, F) or np_.sp:
                        ok = False
                        break
                    want = mkfun(name, tuple(('F', np_.key()) if i == ai else a for i, a in enumerate(args)))
                    if not (isinstance(nq, F) and feq(nq, want)):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                self.rel = chosen
                return vals, r
        r, _ = self.iterate(values, inv)
        return values, r

    def orders(self, values, inv, r):
        E = self.E
        fl = [(v, i) for v, i in self.vars() if isinstance(i, F) and not i.sp and isinstance(values[v], F) and values[v].single() is not None
              and values[v].single().kind == 'lv']
        if not fl:
            return values, r
        # NaN-freeness first
        cand_nan = [v for v, i in fl if all(self.st.facts.isnan(g) is False for g in i.gens())]
        cands = []
        for a, ia in fl:
            for b, ib in fl:
                if a != b and a[0] == b[0] == 'cell' and a[1] == b[1] and entails_le(self.st.facts, ia, ib):
                    cands.append((a, b))
        for _ in range(12):
            self.nonnan = {values[v].single().id for v in cand_nan}
            self.finv = [(fsub(values[a], values[b]).num, False) for a, b in cands]
            r, _ = self.iterate(values, inv)
            keepn = []
            for v in cand_nan:
                if all(self.nonnan_val(leaf, self.next_of(v, leaf)) for leaf in r['back']):
                    keepn.append(v)
            keep = []
            for a, b in cands:
                if all(entails_le(leaf[0].facts, self.next_of(a, leaf), self.next_of(b, leaf)) for leaf in r['back']):
                    keep.append((a, b))
            if len(keep) == len(cands) and len(keepn) == len(cand_nan):
                break
            cands, cand_nan = keep, keepn
        self.order = cands
        return values, r

    def nonnan_val(self, leaf, v):
        if v.sp:
            return v.sp != 'nan' and v.sp != 'undef'
        return all(leaf[0].facts.isnan(g) is False for g in v.gens())

    # ------------------------------------------------------------ closed forms
    def finish(self, values, inv, r, steps):
        E = self.E
        kid = self.k.id
        merge_obl(E.obl, self.pend)
        info = {'id': self.uid, 'line': self.line, 'fn': self.fn.name, 'k': self.k, 'leaves': [], 'vars': {}, 'steps': steps,
                'rel': getattr(self, 'rel', []), 'order': getattr(self, 'order', []), 'names': self.names, 'values': values,
                'exits': r['exit']}
        for leaf in r['back']:
            info['leaves'].append({'facts': leaf[0].facts, 'events': leaf[0].events, 'state': leaf[0], 'env': leaf[1],
                                   'next': {v: self.next_of(v, leaf) for v, _ in self.vars()}})
        kinds = {}
        for var, init in self.vars():
            info['vars'][var] = {'init': init, 'lv': values[var]}
            if var in steps:
                kinds[var] = ('iv',)
                continue
            lv = values[var]
            nx = [info['leaves'][i]['next'][var] for i in range(len(info['leaves']))]
            if isinstance(lv, F):
                kinds[var] = self.classify_float(var, init, lv, nx, info)
            elif isinstance(lv, (I,)):
                if all(isinstance(n, I) and n == lv for n in nx):
                    kinds[var] = ('same',)
                elif all(isinstance(n, I) and isub(n, lv).const() in (0, 1) for n in nx):
                    kinds[var] = ('count',)     # how often something happened: any number
                else:
                    kinds[var] = ('open',)
            elif isinstance(lv, Ptr):
                if all(n == lv for n in nx):
                    kinds[var] = ('same',)
                else:
                    kinds[var] = ('open',)
            else:
                if not all(n == lv for n in nx):
                    raise Undecided('pointer loop variable %s' % self.tag)
                kinds[var] = ('same',)
        info['kinds'] = kinds
        out = []
        anyevents = any(l['events'] for l in info['leaves'])
        logs = tuple(w for leaf in r['back'] for w in leaf[0].wlog)
        exits = []
        common = None
        for leaf in r['back']:
            fs = {(t, c) for t, c, _ in leaf[0].facts.il if any(x == kid for x, _ in t)
                  and not any(Atom.byid[x].kind == 'lv' for x, _ in t)}
            common = fs if common is None else common & fs
        for (s, e, blk, pv) in r['exit']:
            s = s.copy()
            kform = self.solve_k(s, values, e)
            if kform is None and common:
                # no iteration at all, or the continuation facts held one iteration earlier
                for s2, t in E.fork_i(s, 'eq', iatom(64, self.k), iconst(64, 0)):
                    s2 = s2.copy()
                    if not t:
                        for tt, c in common:
                            s2.facts.i_add_le(dict(tt), c - dict(tt)[kid])
                        if s2.facts.i_infeasible({kid: -1}, 1):
                            continue
                    exits.append((s2, e, blk, pv, self.solve_k(s2, values, e)))
            else:
                exits.append((s, e, blk, pv, kform))
        for (s, e, blk, pv, kform) in exits:
            pre = []
            if any(kd[0] == 'last' for kd in kinds.values()):
                # value of the last iteration: separate the zero-iteration case
                for s2, t in E.fork_i(s, 'eq', iatom(64, self.k) if kform is None else kform, iconst(64, 0)):
                    pre.append((s2.copy(), t))
            else:
                pre = [(s, None)]
            for s, zero in pre:
                amap = {}
                gmap = {}
                K = iatom(64, self.k)
                if kform is not None:
                    amap[kid] = kform
                    K = kform
                drop_g, drop_a = set(), set()
                for var, init in self.vars():
                    kd = kinds[var]
                    lv = values[var]
                    if kd[0] == 'iv':
                        continue
                    if isinstance(lv, F):
                        g = lv.single()
                        if g is None or g.kind != 'lv':
                            continue
                        if kd[0] == 'same':
                            gmap[g.id] = init
                        elif kd[0] == 'sum':
                            gmap[g.id] = fadd(init, mksum(kd[1], K))
                        elif kd[0] in ('min', 'max'):
                            ext = [] if init.sp else [init]
                            gmap[g.id] = mkred(kd[0], kd[1], K, ext)
                        elif kd[0] == 'last':
                            if zero:
                                gmap[g.id] = init
                            else:
                                gmap[g.id] = Subst(amap={J.id: iadd(K, iconst(64, -1))}).F(kd[1])
                    elif isinstance(lv, I):
                        if kd[0] == 'same':
                            amap[next(iter(lv.t))] = I(64, init.lin()[1], init.t)
                    elif isinstance(lv, Ptr):
                        if kd[0] == 'same':
                            amap[next(iter(lv.off.t))] = init.off
                sb = Subst(gmap, amap)
                env2 = {}
                for kk, v in e.items():
                    env2[kk] = sb.val(v)
                # closed forms may mention other loop variables: substitute twice
                sb.state(s)
                if any(sb.touches(v) for v in gmap.values() if not v.sp):
                    sb.state(s)
                    env2 = {kk: sb.val(v) for kk, v in env2.items()}
                ev = tuple(sub_event(sb, x) for x in s.events)
                inf2 = dict(info)
                inf2['count'] = K if kform is not None else None
                inf2['gmap'] = gmap
                if anyevents or True:
                    s.loops = dict(s.loops)
                    s.loops[self.uid] = inf2
                s.events = self.st.events + ((LoopEvent(self.L, inf2),) if anyevents else ()) + ev
                s.wlog = self.st.wlog + logs + s.wlog
                if E.track_open:
                    op = {x for var, kd in kinds.items() if kd[0] == 'open' for x in open_ids(values[var])}
                    if op:
                        s.extra['open'] = s.extra.get('open', frozenset()) | op
                out.append(('exit', (s, env2, blk, pv)))
        return out

    def solve_k(self, s, values, env):
        """the exit count as a form, when the facts determine it"""
        E = self.E
        kid = self.k.id
        f = s.facts
        for t, c, _ in f.il:
            d = dict(t)
            if d.get(kid) in (1, -1) and not any(Atom.byid[x].kind == 'lv' for x in d):
                n = {x: -v for x, v in t}
                # equality: the opposite inequality is entailed
                if f.i_le(n, -c):
                    sg = d.pop(kid)
                    # sg*k + d + c = 0  -> k = -sg*(d + c)
                    return I(64, -sg * c, {x: -sg * v for x, v in d.items()})
        if f.i_le({kid: 1}, 0):
            return iconst(64, 0)
        return None

    def guarded(self, ds, info, kj):
        """the values ds of the leaves as one expression, when guards over the round alone tell the leaves apart"""
        fs = [l['facts'] for l in info['leaves']]
        if len(fs) > 6:
            return None
        lvs = all_lv(info, self)

        def common(xs):
            r = set(xs[0])
            for x in xs[1:]:
                r &= set(x)
            return r
        cf, ci = common([f.fl for f in fs]), common([f.il for f in fs])
        cn, cne = common([f.fne for f in fs]), common([f.ine for f in fs])
        nan = [{g for g, v in f.nan.items() if v} for f in fs]
        if any(n != nan[0] for n in nan):
            return None
        cases = []
        for f, d in zip(fs, ds):
            gs = []
            for kind, cons in (('f', [x for x in f.fl if x not in cf]), ('ne', [x for x in f.fne if x not in cn])):
                for con in cons:
                    p = dict(con[0]) if kind == 'f' else dict(con)
                    if kind == 'f' and con[1]:
                        p[ONE] = con[1]
                    q = F(p, P1)
                    if alldeps(q) & lvs:
                        return None
                    gs.append((kind, kj.F(q).key()) + ((con[2],) if kind == 'f' else ()))
            for kind, cons in (('i', [x for x in f.il if x not in ci]), ('ine', [x for x in f.ine if x not in cne])):
                for con in cons:
                    if any(Atom.byid[a].kind == 'lv' for a, _ in con[0]):
                        return None
                    t, c = kj.I128(con[0], con[1])
                    gs.append((kind, tuple(sorted(t.items())), c))
            cases.append((tuple(gs), kj.F(d).key()))
        return mkcases(tuple(cases))

    def classify_float(self, var, init, lv, nx, info):
        g = lv.single()
        if g is None or g.kind != 'lv':
            return ('rel',)
        if not nx:
            return ('same',)
        if not all(isinstance(n, F) for n in nx):
            return ('open',)
        if all(n == lv for n in nx):
            return ('same',)
        kj = Subst(amap={self.k.id: iatom(64, J)})
        lvids = {values_single(v['lv']) for v in info['vars'].values()} - {None}
        # sum
        ds = [fsub(n, lv) if not n.sp else n for n in nx]
        if all(not d.sp and g.id not in alldeps(d) for d in ds) and all(feq(d, ds[0]) for d in ds):
            if not (alldeps(ds[0]) & all_lv(info, self)):
                return ('sum', kj.F(ds[0]))
        elif all(not d.sp and not (alldeps(d) & all_lv(info, self)) for d in ds):
            body = self.guarded(ds, info, kj)
            if body is not None:
                return ('sum', body)
        # min / max
        others = [n for n in nx if n != lv]
        if others and all(not n.sp for n in others) and all(feq(n, others[0]) for n in others) and not (alldeps(others[0]) & all_lv(info, self)):
            u = others[0]
            for kind in ('min', 'max'):
                ok = True
                for n, leaf in zip(nx, info['leaves']):
                    fa = leaf['facts']
                    lvnan = fa.isnan(g.id)
                    if n == lv:
                        good = lvnan is False and (entails_le(fa, lv, u) if kind == 'min' else entails_le(fa, u, lv))
                        # an unordered element leaves the accumulator alone
                        good = good or any(fa.isnan(x) is True for x in u.gens())
                    else:
                        good = (lvnan is True) or (entails_le(fa, u, lv) if kind == 'min' else entails_le(fa, lv, u))
                    if not good:
                        ok = False
                        break
                if ok and (init.sp is None or init.sp == 'nan' or (init.sp == 'inf' and kind == 'min') or (init.sp == '-inf' and kind == 'max')):
                    # an accumulator that starts as NaN must have been tested for NaN
                    if init.sp != 'nan' or any(l['facts'].isnan(g.id) is True for l in info['leaves']):
                        return (kind, kj.F(u))
            if len(nx) == len(others):
                return ('last', kj.F(u))
        elif others and len(nx) == len(others) and all(not n.sp for n in others) and all(feq(n, others[0]) for n in others):
            pass
        return ('open',)


def merge_obl(into, frm):
    for k, o in frm.items():
        p = into.get(k)
        if p is None:
            into[k] = dict(o)
            continue
        p['n'] += o['n']
        if (p['status'] == 'ok' and o['status'] != 'ok') or (p['status'] == 'unknown' and o['status'] == 'fail'):
            p['status'], p['msg'], p['facts'] = o['status'], o['msg'], o['facts']


def open_ids(v):
    if isinstance(v, F) and v.single() is not None:
        return [('g', v.single().id)]
    if isinstance(v, Ptr):
        v = v.off
    if isinstance(v, I):
        return [('a', x) for x in v.t]
    return []


def values_single(v):
    return v.single().id if isinstance(v, F) and v.single() is not None else None


def all_lv(info, S):
    r = set()
    for v in info['vars'].values():
        x = v['lv']
        if isinstance(x, F) and x.single() is not None and x.single().kind == 'lv':
            r.add(x.single().id)
    return r


def alldeps(f):
    """generator ids occurring in f, also inside arguments"""
    out = set()
    if f.sp:
        return out
    for g in f.gens():
        _gdeps(g, out)
    return out


def _gdeps(g, out):
    if g in out:
        return
    out.add(g)
    G = Gen.byid[g]
    if G.kind in ('exp', 'log'):
        if G.key[0] != 'sp':
            out |= alldeps(unkey(G.key)) - out
            for x in unkey(G.key).gens():
                _gdeps(x, out)
    elif G.kind == 'sum':
        for x in unkey(G.key[0]).gens():
            _gdeps(x, out)
    elif G.kind in ('min', 'max'):
        for x in unkey(G.key[0]).gens():
            _gdeps(x, out)
        for e in G.key[2]:
            for x in unkey(e).gens():
                _gdeps(x, out)
    elif G.kind == 'cases':
        for gs, v in G.key:
            for x in unkey(v).gens():
                _gdeps(x, out)
            for y in gs:
                if y[0] in ('f', 'ne'):
                    for x in unkey(y[1]).gens():
                        _gdeps(x, out)
    elif G.kind == 'fun':
        for a in G.key[1]:
            if a[0] == 'F' and a[1][0] != 'sp':
                for x in unkey(a[1]).gens():
                    _gdeps(x, out)


def sub_event(sb, ev):
    if isinstance(ev, LoopEvent):
        return ev
    from .engine import Event
    return Event(ev.name, [sb.val(a) for a in ev.args], sb.val(ev.ret) if ev.ret is not None else None, ev.inst, ev.info, ev.effects)
