"""Partition merging inside a loop body: states that agree on memory, on the protected values and on the facts about
them are joined where control flow joins; every other value becomes unknown.  Sound (a plain abstract union); the
joined states are marked inexact, so they can discharge obligations but never refute one."""
from .alg import *
from . import alg
from .engine import Engine, Undecided, Budget, vkey
from .ir import Const, Arg


def rpo(fn):
    seen, out = set(), []
    st = [(fn.blocks[0], iter(succs(fn.blocks[0])))]
    seen.add(fn.blocks[0].idx)
    while st:
        b, it = st[-1]
        for x in it:
            if x.idx not in seen:
                seen.add(x.idx)
                st.append((x, iter(succs(x))))
                break
        else:
            out.append(b)
            st.pop()
    return {b.idx: i for i, b in enumerate(reversed(out))}


def succs(b):
    t = b.insts[-1]
    return list(t.succs or ())


def live_in(fn):
    use, dfn = {}, {}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op == 'phi':
                d.add(i.id)
                continue
            for o in list(i.ops) + ([i.callee] if i.callee is not None else []):
                if isinstance(o, Const) or o is None:
                    continue
                k = o if isinstance(o, Arg) else o.id
                if k not in d:
                    u.add(k)
            d.add(i.id)
        use[b.idx], dfn[b.idx] = u, d
    live = {b.idx: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.blocks):
            out = set()
            for s in succs(b):
                out |= live[s.idx]
                for i in s.insts:
                    if i.op != 'phi':
                        break
                    for v, p in i.incoming:
                        if p is b and not isinstance(v, Const):
                            out.add(v if isinstance(v, Arg) else v.id)
            n = use[b.idx] | (out - dfn[b.idx])
            for i in b.insts:
                if i.op == 'phi':
                    n.add(i.id)
            if n != live[b.idx]:
                live[b.idx] = n
                ch = True
    return live


class MergeEngine(Engine):
    """protected(value) -> True for float values that must not be joined"""
    merging = True

    def protected(self, v):
        raise NotImplementedError

    def keep_gen(self, g):
        raise NotImplementedError

    def region(self, starts, fn, loop):
        if not self.merging or loop is None or fn is not loop.fn:
            return Engine.region(self, starts, fn, loop)
        c = getattr(self, '_mc', None)
        if c is None:
            c = self._mc = {}
        if fn.name not in c:
            c[fn.name] = (rpo(fn), live_in(fn))
        order, live = c[fn.name]
        out = {'ret': [], 'back': [], 'exit': []}
        pend = {}
        for st, env, b, prev in starts:
            pend.setdefault(b.idx, []).append((st, env, prev))
        blocks = {b.idx: b for b in fn.blocks}
        first = True
        while pend:
            bi = min(pend, key=lambda x: order[x])
            b = blocks[bi]
            items = pend.pop(bi)
            ready = []
            L = b.loop
            inner = L is not None and L.header is b and L is not loop
            for st, env, prev in items:
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Budget('state budget exhausted in ' + fn.name)
                if inner:
                    for kind, leaf in self.do_loop(st, env, L, prev, fn):
                        if kind == 'ret':
                            out['ret'].append(leaf)
                        else:
                            self.route(leaf[0], leaf[1], leaf[2], leaf[3], loop, out, pend)
                    continue
                if prev is not None:
                    vals = []
                    for ins in b.insts:
                        if ins.op != 'phi':
                            break
                        for v, p in ins.incoming:
                            if p is prev:
                                vals.append((ins.id, self.operand(st, env, v)))
                                break
                    if vals:
                        env = dict(env)
                        env.update(vals)
                ready.append((st, env))
            if inner:
                continue
            self.visited.add((fn.name, b.idx))
            if len(ready) > 1:
                ready = self.join(ready, live[bi])
            for st, env in ready:
                work = []
                nphi = 0
                for ins in b.insts:
                    if ins.op != 'phi':
                        break
                    nphi += 1
                self.run_block(st, env, b, nphi, fn, work, out)
                while work:
                    s2, e2, b2, p2, idx = work.pop()
                    if idx >= 0:
                        self.nstates += 1
                        self.run_block(s2, e2, b2, idx, fn, work, out)
                    else:
                        self.route(s2, e2, b2, p2, loop, out, pend)
            first = False
        return out

    def route(self, st, env, b, prev, loop, out, pend):
        if b.idx == loop.header.idx:
            out['back'].append((st, env, prev))
        elif b.idx not in loop.blocks:
            out['exit'].append((st, env, b, prev))
        else:
            pend.setdefault(b.idx, []).append((st, env, prev))

    def join(self, items, live):
        groups = {}
        for st, env in items:
            e = {k: v for k, v in env.items() if k in live or isinstance(k, Arg)}
            key = []
            for k in sorted(e, key=repr):
                v = e[k]
                if not isinstance(v, F) or self.protected(v):
                    key.append((repr(k), vkey(v) if not isinstance(v, (tuple, bool)) else repr(v)))
            for oid in sorted(st.mem):
                o = st.mem[oid]
                key.append((oid, tuple((k, vkey(v)) for k, v in sorted(o.cells.items()) if not isinstance(v, F) or self.protected(v)),
                            len(o.writes)))
            key.append(repr(st.events))
            f = st.facts
            ff = frozenset(c for c in f.fl if self.kept(c[0]))
            fn_ = frozenset(k for k in f.fne if self.kept(k))
            fi = (frozenset(f.il), frozenset(f.ine))
            nn = frozenset((g, b) for g, b in f.nan.items() if self.keep_gen(g))
            key.append((ff, fn_, fi, nn))
            groups.setdefault(tuple(key), []).append((st, e, ff, fn_, nn))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append((g[0][0], g[0][1]))
                continue
            st, e, ff, fn_, nn = g[0]
            n = st.copy()
            env = dict(e)
            for k, v in e.items():
                if isinstance(v, F) and any(x[1].get(k) != v for x in g[1:]):
                    env[k] = fvar('join')
            for oid in list(n.mem):
                for k, v in list(n.mem[oid].cells.items()):
                    if isinstance(v, F) and any(x[0].mem[oid].cells.get(k) != v for x in g[1:]):
                        n.wobj(oid).cells[k] = fvar('join')
            n.facts = n.facts.copy()
            n.facts.fl = tuple(c for c in n.facts.fl if c in ff)
            n.facts.fne = tuple(c for c in n.facts.fne if c in fn_)
            n.facts.nan = dict(nn)
            n.facts._cache = {}
            seen = {(w[0], vkey(w[1])) for w in n.wlog}
            for x in g[1:]:
                for w in x[0].wlog:
                    if (w[0], vkey(w[1])) not in seen:
                        seen.add((w[0], vkey(w[1])))
                        n.wlog = n.wlog + (w,)
            n.exact = False
            out.append((n, env))
        return out

    def kept(self, t):
        for m, _ in t:
            for g, _ in m:
                if not self.keep_gen(g):
                    return False
        return True
