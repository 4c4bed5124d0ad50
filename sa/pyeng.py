"""Abstract interpretation of the CPython extension module: reference ownership, the pending exception and
storage are tracked along every path; the interpreter's API is modelled by its documented outcomes."""
from .alg import *
from . import alg
from .engine import Engine, State, Event, Undecided, Budget, where, vkey
from .loops import region_from_header, header_line

IMMORTAL = {'@_Py_NoneStruct', '@_Py_TrueStruct', '@_Py_FalseStruct', '@_Py_EllipsisObject', '@_Py_NotImplementedStruct'}


def upd(st, k, **kw):
    d = dict(st.extra.get(k, {}))
    d.update(kw)
    st.extra[k] = d


def setk(st, k, key, v):
    d = dict(st.extra.get(k, {}))
    d[key] = v
    st.extra[k] = d


class PyEngine(Engine):
    def __init__(self, module, **kw):
        super().__init__(module, models=None, **kw)
        self.prov = {}      # generator id -> provenance of the number
        self.mt = {}
        for n, h in API.items():
            self.models[n] = h

    def invoke(self, st, tgt, args, ins):
        if isinstance(tgt, Fn) and tgt.name not in self.models:
            n = tgt.name
            if n.startswith('_') and n.endswith('_SizeT'):
                n = n[1:-6]
            if n.startswith('_') and n[1:] in self.models:
                n = n[1:]
            if n in self.models:
                return self.models[n](self, st, ins, args)
        return super().invoke(st, tgt, args, ins)

    # ------------------------------------------------------------ objects
    def py_new(self, st, name, own=1, info=None, base='new'):
        o = self.new_obj(st, name, None, 'pyobj', init='lazy')
        setk(st, 'own', o.id, own)
        setk(st, 'base', o.id, base)
        if info is not None:
            setk(st, 'info', o.id, info)
        return Ptr(o.id, iconst(64, 0))

    def own(self, st, p):
        return st.extra.get('own', {}).get(p.obj, 0)

    def alive(self, st, oid, seen=()):
        if st.extra.get('base', {}).get(oid, 'borrowed') != 'new':
            return not (oid in st.mem and st.mem[oid].freed)
        if st.extra.get('own', {}).get(oid, 0) > 0:
            return True
        for c in st.extra.get('in', {}).get(oid, ()):
            if c not in seen and self.alive(st, c, seen + (oid,)):
                return True
        return False

    def use(self, st, ins, p, what):
        """the object is used as an argument"""
        if isinstance(p, Null):
            self.oblige(ins, 'py-null', False, st, 'a null reference is given to %s' % what, st.exact)
            return False
        self.oblige(ins, 'py-null', True, st)
        if isinstance(p, Ptr):
            self.oblige(ins, 'py-live', self.alive(st, p.obj), st, '%s uses an object after its last reference was released' % what, st.exact)
        elif p is UNDEF:
            self.oblige(ins, 'py-null', False, st, 'an uninitialised reference is given to %s' % what, st.exact)
            return False
        return True

    def incref(self, st, ins, p, x=False):
        if isinstance(p, Null):
            if not x:
                self.oblige(ins, 'py-null', False, st, 'Py_INCREF of a null reference', st.exact)
            return
        if isinstance(p, Ptr):
            if p.obj in IMMORTAL:
                return
            self.use(st, ins, p, 'Py_INCREF')
            setk(st, 'own', p.obj, self.own(st, p) + 1)

    def decref(self, st, ins, p, x=False):
        if isinstance(p, Null):
            if not x:
                self.oblige(ins, 'py-null', False, st, 'Py_DECREF of a null reference', st.exact)
            return
        if p is UNDEF:
            self.oblige(ins, 'py-null', False, st, 'Py_DECREF of an uninitialised reference', st.exact)
            return
        if isinstance(p, Ptr):
            if p.obj in IMMORTAL:
                return
            n = self.own(st, p)
            self.oblige(ins, 'py-release', n > 0, st, 'a reference to %s is released which is not owned here (already released or given away)' % p.obj, st.exact)
            if n > 0:
                setk(st, 'own', p.obj, n - 1)
        elif isinstance(p, Sym):
            raise Undecided('release of %r' % p)

    def err(self, st, what):
        st.extra['err'] = what

    # ------------------------------------------------------------ loops: the first two iterations, then two consecutive generic ones
    def do_loop(self, st, env, L, prev, fn):
        self.loop_log.append((fn.name, header_line(L), 'generic iteration'))
        out = []
        live = [(st, env, prev)]
        hist = []
        for it in range(2):
            nxt = []
            for s, e, p in live:
                hist.append((it, s, e, p))
                r = region_from_header(self, s.copy(), e, L, p, fn)
                out += [('exit', x) for x in r['exit']] + [('ret', x) for x in r['ret']]
                nxt += r['back']
            live = nxt
        for s, e, p in live:
            r = region_from_header(self, s.copy(), e, L, p, fn)
            out += [('exit', x) for x in r['exit']] + [('ret', x) for x in r['ret']]
        hdr = [i for i in L.header.insts if i.op == 'phi']
        for s, e, p in live:
            # values of the header variables at entry of iterations 0 and 2
            v2 = {h.id: self.operand(s, e, next(x for x, q in h.incoming if q is p)) for h in hdr}
            v0 = {h.id: self.operand(st, env, next(x for x, q in h.incoming if q is prev)) for h in hdr}
            alg._fresh[0] += 1
            k = fresh_atom('iteration', 2, 1 << 58)
            ki = iatom(64, k)
            new = {}
            for h in hdr:
                a, b = v0[h.id], v2[h.id]
                new[h.id] = self.generic(a, b, ki, h.name or 'v')
            s2 = s.copy()
            s2.extra['iter'] = s2.exact or bool(s2.extra.get('iter'))
            s2.exact = False        # not every iteration number is reached: no witness is drawn from a generic iteration
            e2 = dict(e)
            dirty = self.dirty(st, s)
            for it in range(3):
                self.havoc(s2, dirty, st, s, ki)
                e3 = dict(e2)
                for h in hdr:
                    e3[h.id] = new[h.id]
                r = self.region([(s2.copy(), e3, L.header, None)], fn, L)
                more = set()
                for s4, e4, p4 in r['back']:
                    more |= self.dirty(s2, s4)
                if more <= dirty:
                    break
                dirty |= more
            res0 = self.resources(s2)
            for s4, e4, p4 in r['back']:
                if self.resources(s4)[1:] != res0[1:]:
                    out.append(('ret', (self.taint(s4, 'an iteration changes the pending exception'), UNDEF)))
                r2 = region_from_header(self, s4.copy(), e4, L, p4, fn)
                out += [('exit', x) for x in r2['exit']] + [('ret', x) for x in r2['ret']]
        return out

    def taint(self, s, why):
        s.extra['taint'] = why
        s.exact = False
        return s

    def resources(self, s):
        return (tuple(sorted((a, b) for a, b in s.extra.get('own', {}).items() if b)), s.extra.get('err') is not None)

    def generic(self, a, b, ki, name):
        if vkey(a) == vkey(b):
            return a
        if isinstance(a, I) and isinstance(b, I):
            d = isub(b, a).const()
            if d is not None:
                d = d - (1 << b.w) if d >= 1 << (b.w - 1) else d
                if d % 2 == 0:
                    k = ki if a.w == 64 else I(a.w, ki.c, ki.t)
                    return iadd(a, iscale(k, d // 2))
            return iatom(a.w, fresh_atom(name, 0, (1 << a.w) - 1))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            d = isub(b.off, a.off).const()
            if d is not None and d % 2 == 0:
                return Ptr(a.obj, iadd(a.off, iscale(ki, d // 2)))
        if isinstance(a, F) and isinstance(b, F):
            return fvar(name)
        raise Undecided('loop-carried value %s' % name)

    def dirty(self, s0, s1):
        d = set()
        for oid, o in s1.mem.items():
            p = s0.mem.get(oid)
            if p is None:
                continue
            for k, v in o.cells.items():
                if k not in p.cells and o.init == 'lazy':
                    continue
                if vkey(p.cells.get(k)) != vkey(v):
                    d.add((oid, k))
        return d

    def havoc(self, s, dirty, st0, st2, ki):
        for oid, k in dirty:
            if oid not in s.mem:
                continue
            o = s.wobj(oid)
            v = o.cells.get(k)
            a = st0.mem[oid].cells.get(k) if oid in st0.mem else None
            b = st2.mem[oid].cells.get(k) if oid in st2.mem else None
            if isinstance(a, I) and isinstance(b, I) and a.w == b.w and isinstance(v, I):
                o.cells[k] = self.generic(a, b, ki, 'cell')
            elif isinstance(v, F):
                o.cells[k] = fvar('cell')
            elif isinstance(v, I):
                o.cells[k] = iatom(v.w, fresh_atom('cell', 0, (1 << v.w) - 1))
            elif isinstance(v, Ptr) and isinstance(a, Ptr) and isinstance(b, Ptr):
                o.cells[k] = self.generic(a, b, ki, 'cell')
            else:
                raise Undecided('memory changed by a loop')


# ------------------------------------------------------------------ models of the API

API = {}


def api(*names):
    def d(f):
        for n in names:
            API[n] = f
        return f
    return d


def cstr(E, st, p):
    if not isinstance(p, Ptr) or p.obj not in st.mem or p.off.const() is None:
        return None
    o = st.mem[p.obj]
    out = []
    off = p.off.const()
    while True:
        v = o.cells.get(off)
        if v is None and o.init == 'zero':
            break
        c = v.const() if isinstance(v, I) else None
        if c is None:
            return None
        if c == 0:
            break
        out.append(chr(c))
        off += 1
    return ''.join(out)


def ev(st, name, args, ret, ins, **info):
    info['err'] = st.extra.get('err')
    st.events = st.events + (Event(name, list(args), ret, ins, info=info),)


def new_or_null(name, uses=(0,), tag=None, can_fail=True):
    def h(E, st, ins, a):
        for i in uses:
            if i < len(a):
                E.use(st, ins, a[i], name)
        s1 = st.copy()
        p = E.py_new(s1, name, info=(tag or name,) + tuple(a))
        ev(s1, name, a, p, ins)
        out = [(s1, p)]
        if can_fail:
            s2 = st
            ev(s2, name, a, NULL, ins)
            E.err(s2, (name,))
            out.append((s2, NULL))
        return out
    return h


for _n, _u in (('PyFloat_FromDouble', ()), ('PyList_New', ()), ('PyTuple_New', ()), ('PyLong_FromLong', ()), ('PyDict_New', ()),
               ('PyLong_FromUnsignedLong', ()), ('PyLong_FromLongLong', ()), ('PyLong_FromUnsignedLongLong', ()),
               ('PyLong_FromSsize_t', ()), ('PyLong_FromSize_t', ()), ('PyBool_FromLong', ()), ('PyUnicode_FromString', ()),
               ('PyByteArray_FromStringAndSize', ()), ('PyBytes_FromStringAndSize', ()), ('PyType_FromSpec', ()),
               ('PyModule_Create2', ()), ('PyNumber_Float', (0,)), ('PyObject_GetIter', (0,)), ('PySequence_List', (0,)),
               ('PySequence_Tuple', (0,)), ('PySequence_Fast', (0,)), ('PyUnicode_FromStringAndSize', ()),
               ('PyObject_GetAttrString', (0,)), ('PyType_FromModuleAndSpec', ())):
    API[_n] = new_or_null(_n, _u)


@api('PySequence_GetItem')
def m_getitem(E, st, ins, a):
    E.use(st, ins, a[0], 'PySequence_GetItem')
    s1 = st.copy()
    p = E.py_new(s1, 'item', info=('item', a[0], a[1]))
    ev(s1, 'getitem', a, p, ins)
    E.err(st, ('PySequence_GetItem',))
    ev(st, 'getitem', a, NULL, ins)
    return [(s1, p), (st, NULL)]


@api('PyList_GetItem', 'PyTuple_GetItem')
def m_bgetitem(E, st, ins, a):
    E.use(st, ins, a[0], 'PyList_GetItem')
    s1 = st.copy()
    p = E.py_new(s1, 'item', own=0, info=('item', a[0], a[1]), base='new')
    setk(s1, 'in', p.obj, (a[0].obj,))
    ev(s1, 'getitem', a, p, ins)
    E.err(st, ('PyList_GetItem',))
    ev(st, 'getitem', a, NULL, ins)
    return [(s1, p), (st, NULL)]


@api('PyIter_Next')
def m_iternext(E, st, ins, a):
    raise Undecided('iterator protocol')


@api('PySequence_Size', 'PySequence_Length', 'PyObject_Size', 'PyObject_Length', 'PyList_Size', 'PyTuple_Size')
def m_size(E, st, ins, a):
    E.use(st, ins, a[0], 'PySequence_Size')
    inf = st.extra.get('info', {}).get(a[0].obj) if isinstance(a[0], Ptr) else None
    n = iatom(64, atom('pysize', vkey(a[0]), 'len', 0, (1 << 59)))
    out = [(st, n)]
    if not inf or inf[0] not in ('PySequence_Fast', 'PySequence_List', 'PySequence_Tuple', 'PyList_New', 'PyTuple_New'):
        s2 = st.copy()
        E.err(s2, ('PySequence_Size',))
        out.append((s2, iconst(64, -1)))
    return out


@api('PyFloat_AsDouble')
def m_asdouble(E, st, ins, a):
    E.use(st, ins, a[0], 'PyFloat_AsDouble')
    out = []
    if isinstance(a[0], Ptr):
        g = fgen(gen('asdouble', vkey(a[0]), 'number(%s)' % a[0].obj))
        E.prov[g.single().id] = (a[0], st.extra.get('info', {}).get(a[0].obj))
        s1 = st.copy()
        ev(s1, 'PyFloat_AsDouble', a, g, ins)
        out.append((s1, g))
    E.err(st, ('PyFloat_AsDouble',))
    ev(st, 'PyFloat_AsDouble', a, None, ins)
    out.append((st, fconst(-1)))
    return out


@api('PyLong_AsLong', 'PyLong_AsUnsignedLong', 'PyLong_AsSsize_t', 'PyLong_AsLongLong', 'PyLong_AsUnsignedLongLong', 'PyLong_AsSize_t')
def m_aslong(E, st, ins, a):
    E.use(st, ins, a[0], 'PyLong_AsLong')
    s1 = st.copy()
    E.err(st, ('PyLong_AsLong',))
    return [(s1, iatom(64, fresh_atom('integer', 0, (1 << 64) - 1))), (st, iconst(64, -1))]


@api('PyList_SetItem', 'PyTuple_SetItem')
def m_setitem(E, st, ins, a):
    E.use(st, ins, a[0], 'PyList_SetItem')
    if isinstance(a[2], Ptr):
        E.decref(st, ins, a[2])             # the reference is given away
        if a[2].obj not in IMMORTAL:
            setk(st, 'in', a[2].obj, st.extra.get('in', {}).get(a[2].obj, ()) + (a[0].obj,))
    ev(st, 'setitem', a, None, ins, item=st.extra.get('info', {}).get(a[2].obj) if isinstance(a[2], Ptr) else None)
    return [(st, iconst(32, 0))]


@api('PyList_Append')
def m_append(E, st, ins, a):
    E.use(st, ins, a[0], 'PyList_Append')
    E.use(st, ins, a[1], 'PyList_Append')
    s2 = st.copy()
    E.err(s2, ('PyList_Append',))
    if isinstance(a[1], Ptr):
        setk(st, 'in', a[1].obj, st.extra.get('in', {}).get(a[1].obj, ()) + (a[0].obj,))
    ev(st, 'append', a, None, ins, item=st.extra.get('info', {}).get(a[1].obj) if isinstance(a[1], Ptr) else None)
    return [(st, iconst(32, 0)), (s2, iconst(32, -1))]


@api('PyDict_SetItemString')
def m_dictset(E, st, ins, a):
    E.use(st, ins, a[0], 'PyDict_SetItemString')
    E.use(st, ins, a[2], 'PyDict_SetItemString')
    s2 = st.copy()
    E.err(s2, ('PyDict_SetItemString',))
    if isinstance(a[2], Ptr):
        setk(st, 'in', a[2].obj, st.extra.get('in', {}).get(a[2].obj, ()) + (a[0].obj,))
    items = st.extra.get('dict', {}).get(a[0].obj, ())
    setk(st, 'dict', a[0].obj, items + ((cstr(E, st, a[1]), 'N', a[2]),))
    return [(st, iconst(32, 0)), (s2, iconst(32, -1))]


@api('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone')
def m_seterr(E, st, ins, a):
    msg = None
    if len(a) > 1 and isinstance(a[1], Ptr):
        msg = st.extra.get('msg', {}).get(a[1].obj)
        if msg is None:
            t = cstr(E, st, a[1])
            msg = ('text', t)
            if t == '%s' and len(a) > 2 and isinstance(a[2], Ptr):
                msg = st.extra.get('msg', {}).get(a[2].obj)
    E.err(st, ('raised', repr(a[0]), msg))
    return [(st, NULL)]


@api('PyErr_NoMemory')
def m_nomem(E, st, ins, a):
    E.err(st, ('raised', 'PyExc_MemoryError', None))
    return [(st, NULL)]


@api('PyErr_Clear')
def m_errclear(E, st, ins, a):
    E.err(st, None)
    return [(st, None)]


@api('PyErr_Occurred')
def m_occurred(E, st, ins, a):
    if st.extra.get('err') is None:
        return [(st, NULL)]
    return [(st, E.py_new(st, 'exception type', own=0, base='borrowed'))]


@api('PyErr_ExceptionMatches')
def m_matches(E, st, ins, a):
    return [(st, iatom(32, fresh_atom('matches', 0, 1)))]


@api('sa_incref', 'Py_IncRef', 'Py_XINCREF', 'Py_INCREF')
def m_inc(E, st, ins, a):
    E.incref(st, ins, a[0], x=True)
    return [(st, None)]


@api('sa_decref')
def m_dec(E, st, ins, a):
    E.decref(st, ins, a[0])
    return [(st, None)]


@api('Py_DecRef', 'Py_XDECREF')
def m_xdec(E, st, ins, a):
    E.decref(st, ins, a[0], x=True)
    return [(st, None)]


@api('Py_NewRef', 'Py_XNewRef', '_Py_NewRef', '_Py_XNewRef')
def m_newref(E, st, ins, a):
    E.incref(st, ins, a[0], x=True)
    return [(st, a[0])]


@api('Py_TYPE')
def m_type(E, st, ins, a):
    if not isinstance(a[0], Ptr):
        raise Undecided('type of %r' % (a[0],))
    o = st.mem[a[0].obj]
    E.oblige(ins, 'live', not o.freed, st, 'the type is read from the object after the object was freed', st.exact)
    t = 'type#' + a[0].obj
    if t not in st.mem:
        x = E.new_obj(st, t, None, 'pyobj', init='lazy', uniq=False)
        setk(st, 'base', t, 'borrowed')
    return [(st, Ptr(t, iconst(64, 0)))]


@api('PyType_GetSlot')
def m_getslot(E, st, ins, a):
    E.use(st, ins, a[0], 'PyType_GetSlot')
    n = a[1].const()
    if n == 74:
        return [(st, Fn('#tp_free'))]
    raise Undecided('PyType_GetSlot %s' % n)


@api('#tp_free', 'PyObject_Free', 'PyObject_Del')
def m_tpfree(E, st, ins, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.wobj(p.obj)
        E.oblige(ins, 'double-free', not o.freed, st, 'the object is freed twice', st.exact)
        o.freed = True
        ev(st, 'tp_free', a, None, ins)
    return [(st, None)]


@api('PyType_GetFlags')
def m_flags(E, st, ins, a):
    return [(st, iatom(64, atom('tpflags', vkey(a[0]), 'flags', 0, (1 << 64) - 1)))]


@api('PyType_IsSubtype', 'PyCallable_Check', 'PySequence_Check', 'PyIter_Check', 'PyNumber_Check', 'PyObject_TypeCheck', 'Py_IS_TYPE', 'PyIndex_Check')
def m_opaqueint(E, st, ins, a):
    nm = ins.callee.v if ins is not None and ins.callee is not None and ins.callee.kind == 'func' else 'test'
    return [(st, iatom(32, atom('pytest', (nm,) + tuple(vkey(x) for x in a), nm, 0, 1)))]


SPEC = {'d': (8, 'f'), 'f': (4, 'f'), 'i': (4, 'i'), 'I': (4, 'i'), 'k': (8, 'i'), 'l': (8, 'i'), 'n': (8, 'i'), 'K': (8, 'i'), 'L': (8, 'i'),
        'p': (4, 'i'), 'h': (2, 'i'), 'H': (2, 'i'), 'b': (1, 'i'), 'B': (1, 'i'), 'O': (8, 'o')}


@api('PyArg_ParseTupleAndKeywords', 'PyArg_ParseTuple')
def m_parse(E, st, ins, a):
    kw = ins.callee.v.find('Keywords') >= 0
    fmt = cstr(E, st, a[2 if kw else 1])
    outs = a[4 if kw else 2:]
    if fmt is None:
        raise Undecided('argument format not constant')
    fmt = fmt.split(':')[0].split(';')[0]
    names = []
    if kw:
        p = a[3]
        o = st.mem[p.obj]
        off = p.off.const()
        while True:
            q = o.cells.get(off)
            if q is None or isinstance(q, Null):
                break
            names.append(cstr(E, st, q))
            off += 8
    specs = []
    opt = kwonly = False
    for c in fmt:
        if c == '|':
            opt = True
        elif c == '$':
            kwonly = True
        elif c in SPEC:
            specs.append((c, opt, kwonly))
        else:
            raise Undecided('argument format %r' % fmt)
    if kw and len(names) != len(specs):
        E.oblige(ins, 'py-format', False, st, 'the format %r describes %d arguments, %d names are given' % (fmt, len(specs), len(names)), True)
    if len(outs) != len(specs):
        E.oblige(ins, 'py-format', False, st, 'the format %r describes %d arguments, %d destinations are given' % (fmt, len(specs), len(outs)), True)
        raise Undecided('argument format')
    res = []
    s0 = st.copy()
    E.err(s0, ('PyArg_ParseTuple',))
    ev(s0, 'parse', a, iconst(32, 0), ins)
    res.append((s0, iconst(32, 0)))
    nopt = [i for i, s in enumerate(specs) if s[1]]
    # none, all, and each optional argument alone
    choices = [set(), set(nopt)] + [{i} for i in nopt]
    seen = []
    for ch in choices:
        if ch in seen:
            continue
        seen.append(ch)
        s = st.copy()
        got = {}
        for i, (c, o, k) in enumerate(specs):
            nm = names[i] if i < len(names) else i
            if o and i not in ch:
                got[nm] = ('default', c, o, k, outs[i])
                continue
            sz, kind = SPEC[c]
            p = outs[i]
            if kind == 'f':
                v = fvar('arg_%s' % nm)
            elif kind == 'i':
                v = iatom(sz * 8, fresh_atom('arg_%s' % nm, 0, (1 << (8 * sz)) - 1))
            else:
                v = E.py_new(s, 'arg_%s' % nm, own=0, base='borrowed')
            if isinstance(p, Ptr) and p.obj in s.mem and s.mem[p.obj].size is not None and s.mem[p.obj].size.const() is not None and s.mem[p.obj].kind == 'stack':
                full = s.mem[p.obj].size.const()
                E.oblige(ins, 'py-format', full == sz or full > 16, s, 'argument %s is stored with %d bytes into a variable of %d bytes' % (nm, sz, full), True)
            E.store(s, ins, p, v, sz)
            got[nm] = ('given', c, o, k, v)
        s.extra['parsed'] = got
        ev(s, 'parse', a, iconst(32, 1), ins, got=got)
        res.append((s, iconst(32, 1)))
    return res


@api('Py_BuildValue')
def m_build(E, st, ins, a):
    fmt = cstr(E, st, a[0])
    if fmt is None:
        raise Undecided('value format not constant')
    vals = list(a[1:])
    s = fmt.replace(' ', '').replace(',', '').replace(':', '')
    isdict = s.startswith('{') and s.endswith('}')
    if isdict:
        s = s[1:-1]
    items = []
    null = False
    stolen = []
    i = 0
    for c in s:
        if i >= len(vals):
            E.oblige(ins, 'py-format', False, st, 'the format %r needs more values than given' % fmt, True)
            raise Undecided('value format')
        v = vals[i]
        i += 1
        if c == 's':
            items.append(('s', cstr(E, st, v)))
        elif c in 'NO':
            if isinstance(v, Null):
                null = True
            elif isinstance(v, Ptr):
                E.use(st, ins, v, 'Py_BuildValue')
                if c == 'N':
                    E.decref(st, ins, v)
                    stolen.append(v)
            items.append((c, v))
        elif c in 'dfiIkKlLnbBhHp':
            want = 'f' if c in 'df' else 'i'
            wid = {'i': 32, 'I': 32, 'b': 32, 'B': 32, 'h': 32, 'H': 32, 'p': 32}.get(c, 64)
            ok = (isinstance(v, F) and want == 'f') or (isinstance(v, I) and want == 'i' and v.w == wid)
            E.oblige(ins, 'py-format', ok or not isinstance(v, (F, I, Ptr, Null)), st, 'format %r: value %d (%r) is not of the type announced by %r' % (fmt, i, v, c), True)
            items.append((c, v))
        else:
            raise Undecided('value format %r' % fmt)
    if i != len(vals):
        E.oblige(ins, 'py-format', False, st, 'the format %r uses %d of %d values' % (fmt, i, len(vals)), True)
    E.oblige(ins, 'py-format', True, st)
    out = []
    if not null:
        s1 = st.copy()
        p = E.py_new(s1, 'Py_BuildValue', info=('Py_BuildValue', fmt))
        for v in stolen:
            if v.obj not in IMMORTAL:
                setk(s1, 'in', v.obj, s1.extra.get('in', {}).get(v.obj, ()) + (p.obj,))
        if isdict:
            pairs = tuple((items[j][1] if items[j][0] == 's' else None, items[j + 1][0], items[j + 1][1]) for j in range(0, len(items) - 1, 2))
            setk(s1, 'dict', p.obj, pairs)
        ev(s1, 'Py_BuildValue', a, p, ins)
        out.append((s1, p))
    if st.extra.get('err') is None:
        E.err(st, ('Py_BuildValue',))
    ev(st, 'Py_BuildValue', a, NULL, ins)
    out.append((st, NULL))
    return out


def status(name, uses=(0,)):
    def h(E, st, ins, a):
        for i in uses:
            E.use(st, ins, a[i], name)
        s2 = st.copy()
        ev(st, name, a, iconst(32, 0), ins)
        ev(s2, name, a, iconst(32, -1), ins)
        E.err(s2, (name,))
        return [(st, iconst(32, 0)), (s2, iconst(32, -1))]
    return h


for _n in ('PyModule_AddIntConstant', 'PyModule_AddStringConstant', 'PyType_Ready'):
    API[_n] = status(_n)
API['PyModule_AddObjectRef'] = status('PyModule_AddObjectRef', (0, 2))
API['PyModule_AddType'] = status('PyModule_AddType', (0, 1))


@api('PyModule_AddObject')
def m_addobject(E, st, ins, a):
    E.use(st, ins, a[0], 'PyModule_AddObject')
    E.use(st, ins, a[2], 'PyModule_AddObject')
    s2 = st.copy()
    ev(st, 'PyModule_AddObject', a, iconst(32, 0), ins)
    E.decref(st, ins, a[2])
    if isinstance(a[2], Ptr):
        setk(st, 'in', a[2].obj, st.extra.get('in', {}).get(a[2].obj, ()) + (a[0].obj,))
    ev(s2, 'PyModule_AddObject', a, iconst(32, -1), ins)
    E.err(s2, ('PyModule_AddObject',))
    return [(st, iconst(32, 0)), (s2, iconst(32, -1))]


# ------------------------------------------------------------------ storage

FAMILY = {'malloc': 'malloc', 'calloc': 'malloc', 'free': 'malloc', 'PyMem_Malloc': 'PyMem', 'PyMem_Calloc': 'PyMem', 'PyMem_Free': 'PyMem',
          'PyMem_RawMalloc': 'PyMem_Raw', 'PyMem_RawCalloc': 'PyMem_Raw', 'PyMem_RawFree': 'PyMem_Raw'}


@api('malloc', 'calloc', 'PyMem_Malloc', 'PyMem_Calloc', 'PyMem_RawMalloc', 'PyMem_RawCalloc')
def m_alloc(E, st, ins, a):
    nm = ins.callee.v
    size = a[0]
    if 'alloc' in nm and nm.lower().endswith('calloc'):
        c = a[1].const()
        size = iscale(a[0], c) if c is not None else None
        if size is None:
            c = a[0].const()
            size = iscale(a[1], c) if c is not None else None
    s1 = st.copy()
    o = E.new_obj(s1, 'block', size, 'heap', init='undef', elem=(8, 'double'))
    setk(s1, 'blk', o.id, FAMILY[nm])
    p = Ptr(o.id, iconst(64, 0))
    ev(s1, 'alloc', [size], p, ins)
    ev(st, 'alloc', [size], NULL, ins)
    return [(s1, p), (st, NULL)]


@api('free', 'PyMem_Free', 'PyMem_RawFree')
def m_free(E, st, ins, a):
    nm = ins.callee.v
    p = a[0]
    ev(st, 'free', a, None, ins)
    if isinstance(p, Null):
        return [(st, None)]
    if p is UNDEF:
        E.oblige(ins, 'free-base', False, st, 'release of an uninitialised pointer', st.exact)
        return [(st, None)]
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.wobj(p.obj)
        fam = st.extra.get('blk', {}).get(p.obj)
        E.oblige(ins, 'double-free', not o.freed, st, 'the buffer is released twice', st.exact)
        E.oblige(ins, 'free-base', p.off.const() == 0 and fam == FAMILY[nm], st, '%s releases %r, which was not obtained from the matching function' % (nm, p), st.exact)
        o.freed = True
    return [(st, None)]


# ------------------------------------------------------------------ the library

def spot_at(E, st, p, ins, name):
    if not isinstance(p, Ptr) or p.obj not in st.mem or p.off.const() is None:
        E.oblige(ins, 'py-null', False, st, '%s is given %r' % (name, p), isinstance(p, Null))
        raise Undecided('%s on %r' % (name, p))
    o = st.mem[p.obj]
    E.oblige(ins, 'live', not o.freed, st, '%s is called on freed memory' % name, st.exact)
    E.check_access(st, ins, p, E.lay['Spot']['#size'], name)
    return p.off.const()


KIND = {'discard_anomalies': 'i', 'low': 'i', 'Nt': 'u', 'n': 'u', 'tail.peaks.container.cursor': 'u', 'tail.peaks.container.capacity': 'u',
        'tail.peaks.container.filled': 'i', 'tail.peaks.container.data': 'p'}
FIELDS = ['q', 'level', 'discard_anomalies', 'low', '__up_down', 'anomaly_threshold', 'excess_threshold', 'Nt', 'n', 'tail.gamma', 'tail.sigma',
          'tail.peaks.e', 'tail.peaks.e2', 'tail.peaks.min', 'tail.peaks.max', 'tail.peaks.container.cursor',
          'tail.peaks.container.capacity', 'tail.peaks.container.last_erased_data', 'tail.peaks.container.filled', 'tail.peaks.container.data']


def fresh_field(E, f, tag=''):
    k = KIND.get(f, 'f')
    if k == 'f':
        return fvar(f + tag)
    if k == 'i':
        return iatom(32, fresh_atom(f + tag, 0, (1 << 32) - 1))
    return iatom(8 * E.lay['Spot'][f + '#size'], fresh_atom(f + tag, 0, 1 << 60))


@api('spot_init')
def m_spot_init(E, st, ins, a):
    b = spot_at(E, st, a[0], ins, 'spot_init')
    S = E.lay['Spot']
    s1 = st.copy()
    o = s1.wobj(a[0].obj)
    old = o.cells.get(b + S['tail.peaks.container.data'])
    for f in FIELDS:
        if KIND.get(f) != 'p':
            o.cells[b + S[f]] = fresh_field(E, f, "'")
    o.cells[b + S['q']], o.cells[b + S['low']], o.cells[b + S['discard_anomalies']], o.cells[b + S['level']] = a[1], a[2], a[3], a[4]
    o.cells[b + S['tail.peaks.container.capacity']] = a[5]
    blk = E.new_obj(s1, 'excesses', None, 'heap', init='lazy', elem=(8, 'double'))
    setk(s1, 'lib', blk.id, True)
    o.cells[b + S['tail.peaks.container.data']] = Ptr(blk.id, iconst(64, 0))
    ev(s1, 'spot_init', a, iconst(32, 0), ins, old=old, blk=blk.id)
    code = iatom(32, fresh_atom('code', (1 << 32) - 1010, (1 << 32) - 1000))
    o2 = st.wobj(a[0].obj)
    for f in FIELDS:
        if KIND.get(f) != 'p':
            o2.cells[b + S[f]] = fresh_field(E, f, '?')
    if o2.kind == 'stack':
        o2.cells[b + S['tail.peaks.container.data']] = NULL
    ev(st, 'spot_init', a, code, ins, old=old)
    st.extra['libcode'] = code
    return [(s1, iconst(32, 0)), (st, code)]


@api('spot_free')
def m_spot_free(E, st, ins, a):
    b = spot_at(E, st, a[0], ins, 'spot_free')
    S = E.lay['Spot']
    o = st.wobj(a[0].obj)
    d = o.cells.get(b + S['tail.peaks.container.data'])
    if d is None and o.init == 'undef':
        E.oblige(ins, 'free-base', False, st, 'spot_free is called on a structure that was never initialised', st.exact)
    if isinstance(d, Ptr) and d.obj in st.mem:
        x = st.wobj(d.obj)
        E.oblige(ins, 'double-free', not x.freed, st, 'the storage of the detector is released twice', st.exact)
        x.freed = True
    for f in FIELDS:
        o.cells[b + S[f]] = fresh_field(E, f, '!') if KIND.get(f) != 'p' else NULL
    for f in ('cursor', 'capacity'):
        o.cells[b + S['tail.peaks.container.' + f]] = iconst(8 * S['tail.peaks.container.%s#size' % f], 0)
    ev(st, 'spot_free', a, None, ins)
    return [(st, None)]


def lib_num(name):
    def h(E, st, ins, a):
        spot_at(E, st, a[0], ins, name)
        v = fvar(name + '()')
        ev(st, name, a, v, ins)
        return [(st, v)]
    return h


API['spot_quantile'] = lib_num('spot_quantile')
API['spot_probability'] = lib_num('spot_probability')


@api('spot_step')
def m_spot_step(E, st, ins, a):
    spot_at(E, st, a[0], ins, 'spot_step')
    out = []
    for lo, hi in ((0, 2), ((1 << 32) - 1010, (1 << 32) - 1000)):
        s = st.copy()
        code = iatom(32, fresh_atom('step', lo, hi))
        ev(s, 'spot_step', a, code, ins)
        if lo:
            s.extra['stepcode'] = code
        out.append((s, code))
    return out


@api('spot_fit')
def m_spot_fit(E, st, ins, a):
    spot_at(E, st, a[0], ins, 'spot_fit')
    snap = None
    if isinstance(a[1], Ptr) and a[1].obj in st.mem:
        o = st.mem[a[1].obj]
        E.oblige(ins, 'live', not o.freed, st, 'spot_fit reads a buffer that was released', st.exact)
        snap = o.copy()
    s1 = st.copy()
    ev(s1, 'spot_fit', a, iconst(32, 0), ins, snap=snap)
    code = iatom(32, fresh_atom('code', (1 << 32) - 1010, (1 << 32) - 1000))
    ev(st, 'spot_fit', a, code, ins, snap=snap)
    st.extra['libcode'] = code
    return [(s1, iconst(32, 0)), (st, code)]


@api('libspot_error')
def m_liberr(E, st, ins, a):
    fill(E, st, ins, a[1], a[2], ('error', a[0], a[2]))
    return [(st, None)]


@api('libspot_version')
def m_libver(E, st, ins, a):
    fill(E, st, ins, a[0], a[1], ('version',))
    return [(st, None)]


@api('libspot_license')
def m_liblic(E, st, ins, a):
    fill(E, st, ins, a[0], a[1], ('license',))
    return [(st, None)]


def fill(E, st, ins, p, n, what):
    c = n.const()
    if isinstance(p, Ptr) and p.obj in st.mem and c is not None:
        E.check_access(st, ins, p, c, 'text of %d bytes' % c)
        setk(st, 'msg', p.obj, what)
    ev(st, 'fill', [p, n], None, ins, what=what)


@api('set_allocators')
def m_setalloc(E, st, ins, a):
    ev(st, 'set_allocators', a, None, ins)
    return [(st, None)]


@api('set_float_utils')
def m_setfu(E, st, ins, a):
    return [(st, None)]
