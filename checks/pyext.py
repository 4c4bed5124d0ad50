"""P24-P26: the Python extension module."""
import os
from sa import build, ir
from sa.harness import *
from sa.engine import where
from sa.pyeng import PyEngine, cstr, setk, FIELDS, KIND, IMMORTAL, fresh_field
from .memory import take_obl

METHODS = {'fit': 'spot_fit', 'step': 'spot_step', 'quantile': 'spot_quantile', 'probability': 'spot_probability',
           'raw': None, 'excesses': None, 'as_dict': None}
T_NAME = {4: ('f', 8), 12: ('i', 8), 1: ('i', 4), 2: ('i', 8), 11: ('i', 4), 17: ('i', 8), 18: ('i', 8), 19: ('i', 8), 3: ('f', 4)}
METH_VARARGS, METH_KEYWORDS, METH_NOARGS, METH_O = 1, 2, 4, 8


class Run:
    pass


def analyse(ctx, b, want=None):
    """every entry point of the module, from every kind of object: list of Run"""
    path = build.python_ir()
    if path is None:
        raise Missing('python/libspotmodule.c not found')
    m = ir.Module(path)
    if 'PyInit_libspot' not in m.functions:
        raise Missing('PyInit_libspot not found in the extension module')
    R = Run()
    R.m = m
    R.runs = []
    R.engines = []
    E = R.E0 = PyEngine(m)
    E.lay = ctx.lay
    st = State()
    R.init = E.call(st, 'PyInit_libspot', [])
    R.engines.append(('module initialisation', E))
    specs = {x.args[0].obj for s, v in R.init for x in s.events if getattr(x, 'name', '') in ('PyType_FromSpec',) and isinstance(x.args[0], Ptr)}
    if len(specs) != 1:
        raise Undecided('the type of the module is not created from one specification')
    sp = specs.pop()
    s0 = R.init[0][0]
    o = s0.mem[sp]
    R.basicsize = o.cells[8].const()
    R.type_name = cstr(E, s0, o.cells[0])
    R.flags = o.cells[16].const() if o.cells.get(16) is not None else 0
    slots = o.cells[24]
    so = s0.mem[slots.obj]
    R.slots = {}
    i = 0
    while True:
        n = so.cells.get(16 * i)
        if n is None or n.const() == 0:
            break
        R.slots[n.const()] = so.cells.get(16 * i + 8)
        i += 1
    R.members, R.methods = [], {}
    mp = R.slots.get(72)
    if isinstance(mp, Ptr):
        mo = s0.mem[mp.obj]
        k = 0
        while isinstance(mo.cells.get(k), Ptr):
            R.members.append((cstr(E, s0, mo.cells[k]), mo.cells[k + 8].const(), mo.cells[k + 16].const(), mo.cells[k + 24].const()))
            k += 40
    mp = R.slots.get(64)
    if isinstance(mp, Ptr):
        mo = s0.mem[mp.obj]
        k = 0
        while isinstance(mo.cells.get(k), Ptr):
            R.methods[cstr(E, s0, mo.cells[k])] = (mo.cells[k + 8], mo.cells[k + 16].const())
            k += 32
    # where the library structure lies inside the object
    R.base = None
    E = PyEngine(m)
    E.lay = ctx.lay
    st = State()
    so = E.new_obj(st, 'self', R.basicsize, 'param', init='lazy')
    for nm, f, mk in (('step', 'spot_step', [None]), ('quantile', 'spot_quantile', [None]), ('fit', 'spot_fit', [None])):
        if nm in R.methods and R.base is None:
            E2 = PyEngine(m)
            E2.lay = ctx.lay
            s = st.copy()
            arg = E2.py_new(s, 'argument', own=0, base='borrowed')
            try:
                for s2, v in E2.call(s, R.methods[nm][0].name, [Ptr(so.id, iconst(64, 0)), arg]):
                    for x in s2.events:
                        if getattr(x, 'name', '') == f and isinstance(x.args[0], Ptr) and x.args[0].obj == so.id and x.args[0].off.const() is not None:
                            R.base = x.args[0].off.const()
            except Undecided:
                pass
    if R.base is None:
        R.base = 16
    for name, (fn, flags) in R.methods.items():
        for reg in ('part', 'full'):
            r = Run()
            r.kind, r.name, r.reg, r.flags = 'method', name, reg, flags
            go(ctx, R, r, fn.name)
    if 60 in R.slots:
        for reg in ('new', 'part', 'full'):
            r = Run()
            r.kind, r.name, r.reg, r.flags = 'init', '__init__', reg, 0
            go(ctx, R, r, R.slots[60].name)
    if 52 in R.slots:
        for reg in ('new', 'part', 'full'):
            r = Run()
            r.kind, r.name, r.reg, r.flags = 'dealloc', '__del__', reg, 0
            go(ctx, R, r, R.slots[52].name)
    for r in R.runs:
        b.engine(r.E)
        b.cov['partitions'] += len(r.out)
    b.engine(R.E0)
    b.cov['partitions'] += len(R.init)
    b.cov['methods'] = sorted(R.methods)
    return R


def go(ctx, R, r, fname):
    E = r.E = PyEngine(R.m)
    E.lay = ctx.lay
    st = State()
    S = ctx.lay['Spot']
    base = R.base
    o = r.self = E.new_obj(st, 'self', R.basicsize, 'param', init='lazy')
    r.fields = {}
    e = None
    for f in FIELDS:
        if r.reg == 'new':
            k = KIND.get(f, 'f')
            v = NULL if k == 'p' else fconst(0) if k == 'f' else iconst(8 * S[f + '#size'], 0)
        else:
            v = fresh_field(E, f) if KIND.get(f) != 'p' else None
        r.fields[f] = v
    if r.reg != 'new':
        e = mk_container(ctx, E, st, r.reg)
        setk(st, 'lib', e.data.id, True)
        C = 'tail.peaks.container.'
        r.fields[C + 'cursor'], r.fields[C + 'capacity'] = e.cur, e.cap
        r.fields[C + 'filled'] = iconst(32, 1 if e.full else 0)
        r.fields[C + 'data'] = Ptr(e.data.id, iconst(64, 0))
    for f, v in r.fields.items():
        o.cells[base + S[f]] = v
    r.e = e
    p = Ptr(o.id, iconst(64, 0))
    args = [p]
    if r.kind == 'method':
        if r.flags & METH_NOARGS:
            args.append(NULL)
        else:
            r.arg = E.py_new(st, 'argument', own=0, base='borrowed')
            args.append(r.arg)
            if r.flags & METH_KEYWORDS:
                args.append(E.py_new(st, 'keywords', own=0, base='borrowed'))
    elif r.kind == 'init':
        args += [E.py_new(st, 'args', own=0, base='borrowed'), E.py_new(st, 'kwds', own=0, base='borrowed')]
    else:
        t = E.new_obj(st, 'type#' + o.id, None, 'pyobj', init='lazy', uniq=False)
        setk(st, 'base', t.id, 'borrowed')
        setk(st, 'own', t.id, 1)      # every instance holds a reference to its heap type
        r.type = t.id
    r.pre = st.copy()
    r.und = None
    r.out = []
    try:
        r.out = E.call(st, fname, args[:max(1, len(R.m.functions[fname].args))])
    except Undecided as ex:
        r.und = str(ex)
    r.fname = fname
    R.runs.append(r)


def evs(s, name):
    return [x for x in s.events if getattr(x, 'name', '') == name]


def tag(r):
    return '%s (%s)' % (r.fname, r.name if r.kind != 'dealloc' else 'deallocation')


def skip(b, rid, r):
    if r.und:
        b.und(rid, tag(r), r.und)
        return True
    return False


def failed(s, v, kind):
    """True/False/None: does the value returned announce a failure?"""
    if kind == 'init':
        if not isinstance(v, I):
            return None
        c = v.sconst()
        if c is not None:
            return c < 0
        t, k = v.lin()
        lo = s.facts.i_le({a: -x for a, x in t.items()}, -k + (1 << 31))
        return True if lo else None
    if isinstance(v, Null):
        return True
    if isinstance(v, Ptr):
        return False
    return None


def lengths(ctx):
    """length of the longest message of the errors possible at construction and at fitting"""
    out = {'init': 0, 'fit': 0}
    for g in ctx.m.globals.values():
        if g.init is not None and g.init.kind == 'agg' and all(c.kind == 'int' for c in g.init.v) and g.ty.kind == 'array' and g.ty.elem.size == 1:
            t = ''.join(chr(c.v & 255) for c in g.init.v).rstrip('\0')
            if ' ' in t and len(t) < 200:
                out['init'] = max(out['init'], len(t))
                if 'threshold' in t:
                    out['fit'] = max(out['fit'], len(t))
    return out


def p24(ctx, b, tier):
    b.rule('raises', 'no result is returned exactly when an exception is pending')
    b.rule('code', 'an error code of the library raises RuntimeError with the message of that code')
    b.rule('untouched', 'the library is not called and the detector not modified after a failed conversion of the arguments')
    b.rule('text', 'texts of the library are received in a buffer of the announced size')
    b.rule('only', 'a result of the library that is no failure of construction or fitting is returned, not replaced by an exception')
    R = analyse(ctx, b)
    need = lengths(ctx)
    for r in R.runs:
        if r.kind == 'dealloc':
            continue
        if skip(b, 'raises', r):
            continue
        for s, v in r.out:
            if s.extra.get('taint'):
                b.und('raises', tag(r), s.extra['taint'])
                continue
            f = failed(s, v, r.kind)
            err = s.extra.get('err')
            if f is None:
                b.und('raises', tag(r), 'returned value %r' % (v,))
                continue
            if f and err is None:
                b.bad('raises', tag(r), 'a path announces a failure without raising an exception%s; partition: %s' % (last(s), part(s)))
            elif not f and err is not None:
                b.bad('raises', tag(r), 'a path returns a result although %s failed (exception pending)%s; partition: %s' % (err[0], last(s), part(s)))
            else:
                b.ok('raises', tag(r))
            # library codes
            code = s.extra.get('libcode')
            calls = [x for x in s.events if getattr(x, 'name', '') in ('spot_step', 'spot_quantile', 'spot_probability', 'spot_fit', 'spot_init')]
            if f and err is not None and err[0] == 'raised' and code is None and calls:
                if s.exact:
                    b.bad('only', tag(r), 'an exception is raised although %s did not fail; partition: %s' % (calls[-1].name, part(s)))
            elif calls:
                b.ok('only', tag(r))
            if f and err is not None and err[0] == 'raised' and err[2] and err[2][0] == 'error' and len(err[2]) > 2 and err[2][2].const() is not None:
                n = err[2][2].const()
                if n <= need['init' if r.kind == 'init' else 'fit']:
                    b.bad('code', tag(r), 'the message of the library is cut to %d characters' % (n - 1))
            if code is not None:
                if not f:
                    b.bad('code', tag(r), 'the error code of the library is not reported; partition: %s' % part(s))
                elif err is None:
                    pass
                elif err[0] != 'raised' or 'RuntimeError' not in err[1]:
                    b.bad('code', tag(r), 'the error code of the library raises %s instead of RuntimeError' % (err[1] if err[0] == 'raised' else err[0]))
                elif not err[2] or err[2][0] != 'error':
                    b.bad('code', tag(r), 'the exception does not carry the message of the library')
                else:
                    got = err[2][1]
                    if isinstance(got, I) and isub(iadd(got, code), iconst(32, 0)).const() == 0:
                        b.ok('code', tag(r))
                    else:
                        r0, how = decide_eq(s.facts, got, isub(iconst(32, 0), code))
                        if r0 == 'yes':
                            b.ok('code', tag(r))
                        elif r0 == 'no' and s.exact:
                            b.bad('code', tag(r), 'the message is that of code %r, the code is -(%r)' % (got, code))
                        else:
                            b.und('code', tag(r), 'message code %r' % got)
            # untouched
            for x in s.events:
                n = getattr(x, 'name', '')
                if n in ('spot_init', 'spot_fit', 'spot_step', 'spot_quantile', 'spot_probability', 'spot_free'):
                    pe = x.info.get('err')
                    if pe is not None and n != 'spot_free':
                        b.bad('untouched', where(x.inst), '%s is called although %s failed; partition: %s' % (n, pe[0], part(s)))
                    else:
                        b.ok('untouched', where(x.inst))
            if f and code is None and r.kind == 'method' or (f and r.kind == 'init'):
                changed = [k for k in FIELDS if cell(s, r.self, R.base + ctx.lay['Spot'][k]) is not None and
                           not same(cell(s, r.self, R.base + ctx.lay['Spot'][k]), r.fields[k])]
                if changed:
                    b.bad('untouched', tag(r), 'a failing call modifies %s of the detector%s; partition: %s' % (', '.join(changed[:3]), last(s), part(s)))
                else:
                    b.ok('untouched', tag(r), 'detector unchanged')
        take_obl(b, r.E, 'text', ('bounds', 'null', 'valid-pointer', 'initialised'))
    for s, v in R.init:
        f = failed(s, v, 'method')
        err = s.extra.get('err')
        if f is None:
            b.und('raises', 'PyInit_libspot', 'returned %r' % (v,))
        elif f and err is None:
            b.bad('raises', 'PyInit_libspot', 'the import fails without an exception%s' % last(s))
        elif not f and err is not None:
            b.bad('raises', 'PyInit_libspot', 'the import succeeds although %s failed' % (err[0],))
        else:
            b.ok('raises', 'PyInit_libspot')
    take_obl(b, R.E0, 'text', ('bounds', 'null', 'valid-pointer', 'py-null'))


def same(a, c):
    return a is c or (type(a) is type(c) and a == c)


def last(s):
    if not s.events:
        return ''
    x = s.events[-1]
    return ' (after %s at %s)' % (getattr(x, 'name', '?'), where(getattr(x, 'inst', None)))


def p25(ctx, b, tier):
    b.rule('released', 'every reference obtained is released or given away exactly once on every path; the result returned is owned by the caller')
    b.rule('buffer', 'every temporary buffer is released exactly once on every path')
    b.rule('valid', 'no object or buffer is used after it was released, and no null reference is used')
    b.rule('storage', 'the storage of a detector is released exactly once: when the object dies or is initialised again')
    b.rule('dealloc', 'deallocation frees the storage, then the object, then drops the reference to its type')
    R = analyse(ctx, b)
    S = ctx.lay['Spot']
    doff = R.base + S['tail.peaks.container.data']
    for r in R.runs:
        if skip(b, 'released', r):
            continue
        for s, v in r.out:
            if s.extra.get('taint'):
                b.und('released', tag(r), s.extra['taint'])
                continue
            own = s.extra.get('own', {})
            ret = v.obj if isinstance(v, Ptr) and r.kind == 'method' else None
            okk = True
            for oid, n in own.items():
                want = 1 if oid == ret else 0
                if n > want and s.exact:
                    okk = False
                    b.bad('released', tag(r), 'a reference to %s is never released%s; partition: %s' % (oid.split('#')[0], last(s), part(s)))
                elif n < want and s.exact:
                    okk = False
                    b.bad('released', tag(r), 'the object returned (%s) is not owned by the caller: its reference was released or given away%s' % (oid.split('#')[0], last(s)))
                elif n != want:
                    okk = False
                    b.und('released', tag(r), 'references of %s' % oid)
            if ret is not None and ret not in own and ret not in IMMORTAL:
                if ret == r.self.id:
                    b.bad('released', tag(r), 'the object itself is returned without a new reference')
                    okk = False
            if okk:
                b.ok('released', tag(r))
            okk = True
            for oid in s.extra.get('blk', {}):
                if not s.mem[oid].freed:
                    okk = False
                    (b.bad if s.exact else b.und)('buffer', tag(r), 'a temporary buffer is never released%s; partition: %s' % (last(s), part(s)))
            if okk:
                b.ok('buffer', tag(r))
            # storage of the detector
            d = cell(s, r.self, doff)
            held = [oid for oid in s.extra.get('lib', {}) if not s.mem[oid].freed]
            if r.kind == 'dealloc':
                if held:
                    b.bad('storage', tag(r), 'the storage of the detector is not released when the object dies')
                else:
                    b.ok('storage', tag(r))
                fr = evs(s, 'tp_free')
                sf = evs(s, 'spot_free')
                if len(fr) != 1:
                    b.bad('dealloc', tag(r), 'the memory of the object is freed %d times' % len(fr))
                elif not isinstance(fr[0].args[0], Ptr) or fr[0].args[0].obj != r.self.id or fr[0].args[0].off.const() != 0:
                    b.bad('dealloc', where(fr[0].inst), '%r is freed instead of the object' % (fr[0].args[0],))
                else:
                    b.ok('dealloc', tag(r))
                n = s.extra.get('own', {}).get(r.type, 0)
                if n == 0:
                    b.ok('dealloc', tag(r), 'type reference')
                continue
            lost = [x for x in held if not (isinstance(d, Ptr) and d.obj == x)]
            if lost:
                b.bad('storage', tag(r), 'storage of the detector is lost (neither released nor reachable from the object)%s; partition: %s' % (last(s), part(s)))
            elif isinstance(d, Ptr) and d.obj in s.mem and s.mem[d.obj].freed:
                b.bad('storage', tag(r), 'the object keeps a pointer to released storage%s' % last(s))
            else:
                b.ok('storage', tag(r))
        take_obl(b, r.E, 'valid', ('py-null', 'py-live', 'py-release', 'live', 'double-free', 'free-base', 'undef-branch'))
    # module loading: the module goes to the interpreter, everything else is released or handed over
    w = 'PyInit_libspot'
    for s, v in R.init:
        if s.extra.get('taint'):
            b.und('released', w, s.extra['taint'])
            continue
        ret = v.obj if isinstance(v, Ptr) else None
        kept = {c.obj for o in s.mem.values() if o.kind == 'global' for c in o.cells.values() if isinstance(c, Ptr)}
        okk = True
        for oid, n in s.extra.get('own', {}).items():
            want = 1 if oid == ret else 0
            if n == want:
                continue
            okk = False
            if not s.exact or (n > want and oid in kept):
                b.und('released', w, 'references of %s' % oid)
            elif n > want:
                b.bad('released', w, 'a reference to %s is never released%s; partition: %s' % (oid.split('#')[0], last(s), part(s)))
            else:
                b.bad('released', w, 'the module returned is not owned by the caller%s' % last(s))
        if okk:
            b.ok('released', w)
    take_obl(b, R.E0, 'valid', ('py-null', 'py-live', 'py-release', 'live', 'double-free', 'free-base'))


MEMBERS = {'q': 'q', 'level': 'level', 'anomaly_threshold': 'anomaly_threshold', 'excess_threshold': 'excess_threshold', 'Nt': 'Nt', 'n': 'n',
           'gamma': 'tail.gamma', 'sigma': 'tail.sigma'}
MORE = {'low': 'low', 'discard_anomalies': 'discard_anomalies', 'max_excess': 'tail.peaks.container.capacity'}
DEFAULTS = {'low': ('i', 0), 'discard_anomalies': ('i', 1), 'level': ('f', 0.98), 'max_excess': ('i', 500)}
DICT = {None: ['q', 'level', 'discard_anomalies', 'low', 'anomaly_threshold', 'excess_threshold', 'Nt', 'n', 'tail'],
        'tail': ['gamma', 'sigma', 'peaks'], 'tail.peaks': ['e', 'e2', 'min', 'max', 'container'],
        'tail.peaks.container': ['cursor', 'capacity', 'last_erased_data', 'filled', 'data']}


def p26(ctx, b, tier):
    b.rule('members', 'every attribute reads the field of its name with its type')
    b.rule('init', 'the constructor passes its arguments, or the documented defaults, to the library under their names')
    b.rule('call', 'each method passes its argument to the library function of its name, once, on the own detector, and returns its result')
    b.rule('fit', 'fit passes exactly the given numbers, in order')
    b.rule('excesses', 'excesses lists exactly the stored values, in order')
    b.rule('dict', 'as_dict and raw show every field under its name')
    b.rule('module', 'constants, version and allocators are those of the library')
    b.rule('format', 'format strings agree with the values they describe')
    R = analyse(ctx, b)
    S = ctx.lay['Spot']
    # members
    if R.base < 16 or R.base + S['#size'] > R.basicsize:
        b.bad('members', 'SpotType_spec', 'the object (%d bytes) does not hold the library structure (%d bytes at %d)' % (R.basicsize, S['#size'], R.base))
    else:
        b.ok('members', 'SpotType_spec', 'object size')
    have = {}
    for nm, ty, off, fl in R.members:
        have[nm] = off
        f = MEMBERS.get(nm) or MORE.get(nm) or (nm if nm in FIELDS else None)
        if f is None:
            b.und('members', 'Spot_members', 'attribute %s' % nm)
            continue
        kind = 'f' if f not in KIND else 'i'
        if off != R.base + S[f]:
            other = [g for g in FIELDS if R.base + S[g] == off]
            b.bad('members', 'attribute %s' % nm, 'reads offset %d (%s), the field is at %d' % (off, other[0] if other else 'no field', R.base + S[f]))
        elif T_NAME.get(ty) != (kind, S[f + '#size']):
            b.bad('members', 'attribute %s' % nm, 'type code %d does not describe the field' % ty)
        else:
            b.ok('members', 'attribute %s' % nm)
        if not fl & 1:
            b.bad('members', 'attribute %s' % nm, 'the attribute is writable')
    for nm in MEMBERS:
        if nm not in have:
            b.bad('members', 'attribute %s' % nm, 'missing')
    for nm in METHODS:
        if nm not in R.methods:
            b.bad('call', 'method %s' % nm, 'missing')
    for r in R.runs:
        if r.kind == 'dealloc':
            continue
        take_obl(b, r.E, 'format', ('py-format',))
        if skip(b, 'call', r):
            continue
        for s, v in r.out:
            if s.extra.get('taint') or failed(s, v, r.kind) is not False or s.extra.get('err') is not None:
                continue
            if r.kind == 'init':
                init_map(ctx, b, R, r, s)
            elif METHODS.get(r.name):
                method_map(ctx, b, R, r, s, v)
            elif r.name == 'raw':
                raw_map(ctx, b, R, r, s, v)
            elif r.name == 'excesses':
                list_map(ctx, b, R, r, s, v, 'excesses')
            elif r.name == 'as_dict':
                dict_map(ctx, b, R, r, s, v, None)
    module_map(ctx, b, R)


def init_map(ctx, b, R, r, s):
    S = ctx.lay['Spot']
    c = evs(s, 'spot_init')
    got = s.extra.get('parsed')
    if len(c) != 1:
        b.bad('init', tag(r), 'spot_init is called %d times on a successful path' % len(c))
        return
    if got is None:
        b.und('init', tag(r), 'arguments not parsed by a format')
        return
    names = ['q', 'low', 'discard_anomalies', 'level', 'max_excess']
    for i, nm in enumerate(names):
        a = c[0].args[i + 1]
        g = got.get(nm)
        w = where(c[0].inst)
        if g is None:
            b.bad('init', w, 'the constructor has no argument named %s' % nm)
            continue
        if nm == 'q':
            if g[2]:
                b.bad('init', w, 'q is optional')
        elif not g[2]:
            b.bad('init', w, '%s is required' % nm)
        if g[0] == 'given':
            want = g[4]
            if type(a) is not type(want):
                b.bad('init', w, 'argument %s: %r is passed' % (nm, a))
                continue
            if isinstance(a, I) and a.w != want.w:
                want = I(a.w, want.c, want.t)
            b.eq('init', s, a, want, w, 'argument %s passed to the library' % nm)
        else:
            kind, val = DEFAULTS[nm]
            want = fconst(val) if kind == 'f' else iconst(a.w if isinstance(a, I) else 32, val)
            if type(a) is not type(want):
                b.bad('init', w, 'default of %s: %r is passed' % (nm, a))
                continue
            b.eq('init', s, a, want, w, 'default of %s' % nm)
    # the object holds the detector that was initialised
    d = cell(s, r.self, R.base + S['tail.peaks.container.data'])
    if isinstance(d, Ptr) and d.obj == c[0].info.get('blk'):
        b.ok('init', tag(r), 'the object holds the initialised detector')
    else:
        b.bad('init', tag(r), 'after a successful initialisation the object does not hold the initialised detector')
    for f, i in (('q', 1), ('low', 2), ('discard_anomalies', 3), ('level', 4)):
        x = cell(s, r.self, R.base + S[f])
        if not same(x, c[0].args[i]):
            b.bad('init', tag(r), 'field %s of the object is not that of the initialised detector' % f)


def on_self(R, r, p):
    return isinstance(p, Ptr) and p.obj == r.self.id and p.off.const() == R.base


def method_map(ctx, b, R, r, s, v):
    f = METHODS[r.name]
    w = tag(r)
    lib = [x for x in s.events if getattr(x, 'name', '').startswith('spot_')]
    c = [x for x in lib if x.name == f]
    others = [x for x in lib if x.name != f]
    if others:
        b.bad('call', where(others[0].inst), 'method %s calls %s' % (r.name, others[0].name))
    if len(c) != 1:
        b.bad('call', w, 'method %s calls %s %d times; partition: %s' % (r.name, f, len(c), part(s)))
        return
    x = c[0]
    w = where(x.inst)
    if not on_self(R, r, x.args[0]):
        b.bad('call', w, '%s is given %r instead of the detector of the object' % (f, x.args[0]))
        return
    if r.name == 'fit':
        fit_map(ctx, b, R, r, s, x)
        if isinstance(v, Ptr) and v.obj == '@_Py_NoneStruct':
            b.ok('call', w)
        else:
            b.und('call', w, 'fit returns %r' % (v,))
        return
    want = fgen(gen('asdouble', vkey_(r.arg), 'number(%s)' % r.arg.obj)) if r.flags & METH_O else None
    if want is None:
        b.und('call', w, 'calling convention')
    else:
        b.eq('call', s, x.args[1], want, w, 'number passed to %s' % f)
    inf = s.extra.get('info', {}).get(v.obj) if isinstance(v, Ptr) else None
    if inf is None:
        b.und('call', w, 'result %r' % (v,))
        return
    if f == 'spot_step':
        if not inf[0].startswith('PyLong_From'):
            b.bad('call', w, 'the result of step is built by %s' % inf[0])
            return
        if s.extra.get('stepcode') is not None and ('Unsigned' in inf[0] or inf[0] == 'PyLong_FromSize_t'):
            b.bad('call', w, 'a negative code returned by the library becomes a huge number (%s)' % inf[0])
            return
        got = inf[1]
        want = x.ret
        ws = r.E.wraps(s.copy(), want, True)
        if got.w != want.w and len(ws) == 1:
            want = I(got.w, ws[0][2], ws[0][1])
        b.eq('call', s, got, want, w, 'result of step')
    else:
        if inf[0] != 'PyFloat_FromDouble':
            b.bad('call', w, 'the result of %s is built by %s' % (r.name, inf[0]))
            return
        b.eq('call', s, inf[1], x.ret, w, 'result of %s' % r.name)


def vkey_(p):
    from sa.engine import vkey
    return vkey(p)


def source(s, r, p, depth=0):
    """the object the numbers come from: the argument, or a list made of it"""
    while isinstance(p, Ptr) and depth < 4:
        if p.obj == r.arg.obj:
            return True
        inf = s.extra.get('info', {}).get(p.obj)
        if inf and inf[0] in ('PySequence_Fast', 'PySequence_List', 'PySequence_Tuple'):
            p = inf[1]
            depth += 1
            continue
        return False
    return False


def fit_map(ctx, b, R, r, s, x):
    w = where(x.inst)
    buf, n = x.args[1], x.args[2]
    gets = evs(s, 'getitem')
    seqs = {g.args[0].obj for g in gets if isinstance(g.args[0], Ptr)}
    if not gets:
        # no element: the size passed must be zero
        if n.const() == 0 or (s.facts.i_le(n.lin()[0], n.lin()[1])):
            b.ok('fit', w, 'empty batch')
            return
        # the length is unknown but the loop was not entered
        b.und('fit', w, 'no element read, size %r' % n)
        return
    if len(seqs) != 1:
        b.und('fit', w, 'several sequences')
        return
    seq = gets[0].args[0]
    if not source(s, r, seq):
        b.bad('fit', w, 'the numbers are not taken from the argument')
        return
    ln = iatom(64, atom('pysize', vkey_(seq), 'len', 0, (1 << 59)))
    s1 = s
    if not s.exact and s.extra.get('iter') and not s.extra.get('taint') and \
            all(Atom.byid[a].kind == 'pysize' for a in n.t):
        # the count is that of the sequence, whatever the iteration looked at
        s1 = s.copy()
        s1.exact = True
    b.eq('fit', s1, n, ln, w, 'number of values passed to spot_fit')
    snap = x.info.get('snap')
    if snap is None or not isinstance(buf, Ptr) or buf.off.const() != 0:
        b.und('fit', w, 'buffer %r' % (buf,))
        return
    if snap.size is not None:
        t = isub(iscale(ln, 8), snap.size).const()
        if t == 0:
            b.ok('fit', w, 'buffer size')
        else:
            bad = [z for z in sample(s.facts, (snap.size, ln), n=8) if z.I(snap.size) < 8 * z.I(ln)]
            (b.bad if bad and s.exact else b.und)('fit', w, 'the buffer has %r bytes' % snap.size)
    idx = []
    for off, val in snap.writes:
        g = val.single() if isinstance(val, F) and hasattr(val, 'single') else None
        pr = r.E.prov.get(g.id) if g is not None else None
        if pr is None or pr[1] is None or pr[1][0] != 'item':
            (b.bad if s.exact else b.und)('fit', w, 'the value stored at offset %r is %r, not an element of the argument' % (off, val))
            return
        b.eq('fit', s, off, iscale(pr[1][2], 8), w, 'position of element %r' % pr[1][2])
        idx.append(pr[1][2])
    cover(b, 'fit', s, idx, ln, w, 'elements of the argument')


def cover(b, rid, s, idx, n, w, what):
    """indices 0, 1, k, k+1 (k any): all of 0..n-1"""
    if not idx:
        return
    down = decide_eq(s.facts, idx[0], iconst(64, 0))[0] != 'yes' and decide_eq(s.facts, iadd(idx[0], iconst(64, 1)), n)[0] == 'yes'
    if down:        # n-1, n-2, ..., 0
        if len(idx) >= 2:
            b.eq(rid, s, isub(idx[0], idx[1]), iconst(64, 1), w, 'second of the ' + what)
        if len(idx) >= 4:
            b.eq(rid, s, isub(idx[2], idx[3]), iconst(64, 1), w, 'step over the ' + what)
        b.eq(rid, s, idx[-1], iconst(64, 0), w, 'last of the ' + what)
        return
    b.eq(rid, s, idx[0], iconst(64, 0), w, 'first of the ' + what)
    if len(idx) >= 2:
        b.eq(rid, s, idx[1], iconst(64, 1), w, 'second of the ' + what)
    if len(idx) >= 4:
        b.eq(rid, s, isub(idx[3], idx[2]), iconst(64, 1), w, 'step over the ' + what)
    b.eq(rid, s, iadd(idx[-1], iconst(64, 1)), n, w, 'number of the ' + what)


def list_map(ctx, b, R, r, s, v, rid):
    e = r.e
    w = tag(r)
    if isinstance(v, Ptr):
        inf = s.extra.get('info', {}).get(v.obj)
    else:
        inf = None
    if not inf or inf[0] != 'PyList_New':
        b.und(rid, w, 'result %r' % (inf,))
        return
    sets = [x for x in evs(s, 'setitem') if isinstance(x.args[0], Ptr) and x.args[0].obj == v.obj]
    apps = [x for x in evs(s, 'append') if isinstance(x.args[0], Ptr) and x.args[0].obj == v.obj]
    size = inf[1]
    if apps and not sets:
        if size.const() != 0:
            b.bad(rid, w, 'values are appended to a list of %r null items' % size)
            return
        for i, x in enumerate(apps):
            pass
        b.und(rid, w, 'list built by appending')
        return
    b.eq(rid, s, size, e.size if size.w == e.size.w else I(size.w, e.size.c, e.size.t), w, 'length of the list')
    idx = []
    for x in sets:
        it = x.info.get('item')
        if not it or it[0] != 'PyFloat_FromDouble':
            b.bad(rid, where(x.inst), 'the item stored is not a number')
            return
        b.eq(rid, s, it[1], elem_of(e.data, iscale(x.args[1], 8)), where(x.inst), 'item %r' % x.args[1])
        idx.append(x.args[1])
    if idx:
        cover(b, rid, s, idx, e.size, w, 'items of the list')


def raw_map(ctx, b, R, r, s, v):
    inf = s.extra.get('info', {}).get(v.obj) if isinstance(v, Ptr) else None
    w = tag(r)
    if not inf or inf[0] not in ('PyByteArray_FromStringAndSize', 'PyBytes_FromStringAndSize'):
        b.und('dict', w, 'raw returns %r' % (inf,))
        return
    if on_self(R, r, inf[1]) and inf[2].const() == ctx.lay['Spot']['#size']:
        b.ok('dict', w, 'raw')
    else:
        b.bad('dict', w, 'raw copies %r bytes from %r' % (inf[2], inf[1]))


def dict_map(ctx, b, R, r, s, v, path):
    d = s.extra.get('dict', {}).get(v.obj) if isinstance(v, Ptr) else None
    w = tag(r)
    if d is None:
        b.und('dict', w, 'dictionary %s not tracked' % (path or 'as_dict'))
        return
    seen = set()
    for k, c, x in d:
        full = k if path is None else '%s.%s' % (path, k)
        seen.add(k)
        if full in DICT:
            dict_map(ctx, b, R, r, s, x, full)
            continue
        if full == 'tail.peaks.container.data':
            list_map(ctx, b, R, r, s, x, 'dict')
            continue
        if full not in r.fields:
            b.und('dict', w, 'key %s' % full)
            continue
        val = x
        if isinstance(x, Ptr):
            inf = s.extra.get('info', {}).get(x.obj)
            val = inf[1] if inf and (inf[0] == 'PyFloat_FromDouble' or inf[0].startswith('PyLong_From') or inf[0] == 'PyBool_FromLong') else None
        want = r.fields[full]
        if type(val) is not type(want) or (isinstance(val, I) and val.w != want.w):
            b.und('dict', w, 'key %s has value %r' % (full, val))
            continue
        b.eq('dict', s, val, want, w, 'value under key %s' % full)
    for k in DICT[path]:
        if k not in seen:
            b.bad('dict', w, 'key %s is missing in %s' % (k, path or 'as_dict'))


def module_map(ctx, b, R):
    w = 'PyInit_libspot'
    pairs = {('malloc', 'free'), ('PyMem_Malloc', 'PyMem_Free'), ('PyMem_RawMalloc', 'PyMem_RawFree'), ('PyObject_Malloc', 'PyObject_Free')}
    n = 0
    for s, v in R.init:
        if not isinstance(v, Ptr) or s.extra.get('err') is not None:
            continue
        n += 1
        got = {cstr(R.E0, s, x.args[1]): x for x in evs(s, 'PyModule_AddIntConstant')}
        for k in ('NORMAL', 'EXCESS', 'ANOMALY'):
            if k not in got:
                b.bad('module', w, 'constant %s is not defined' % k)
            elif got[k].args[2].sconst() != ctx.en[k]:
                b.bad('module', where(got[k].inst), 'constant %s is %r, the library uses %d' % (k, got[k].args[2].sconst(), ctx.en[k]))
            else:
                b.ok('module', where(got[k].inst), k)
        vs = {cstr(R.E0, s, x.args[1]): x for x in evs(s, 'PyModule_AddStringConstant')}
        x = vs.get('__version__')
        if x is None:
            b.bad('module', w, '__version__ is not defined')
        else:
            t = s.extra.get('msg', {}).get(x.args[2].obj) if isinstance(x.args[2], Ptr) else None
            if t == ('version',):
                b.ok('module', where(x.inst), 'version')
            else:
                b.bad('module', where(x.inst), '__version__ is not the version of the library')
        al = evs(s, 'set_allocators')
        if not al:
            b.bad('module', w, 'no allocator is registered: every constructor would fail')
        else:
            a = [getattr(z, 'name', None) for z in al[-1].args]
            if tuple(a) in pairs:
                b.ok('module', where(al[-1].inst), 'allocators')
            elif all(z in {q for p in pairs for q in p} for z in a):
                b.bad('module', where(al[-1].inst), 'allocators %s and %s do not match' % tuple(a))
            else:
                b.und('module', where(al[-1].inst), 'allocators %s' % a)
        ob = [x for x in evs(s, 'PyModule_AddObject') + evs(s, 'PyModule_AddObjectRef') if cstr(R.E0, s, x.args[1]) == 'Spot'] + evs(s, 'PyModule_AddType')
        if not ob:
            b.bad('module', w, 'the module does not define Spot')
        else:
            b.ok('module', where(ob[0].inst), 'Spot')
    if not n:
        b.und('module', w, 'no successful path')
    for nm in (52, 60):
        if nm not in R.slots:
            b.bad('module', 'SpotType_slots', 'no %s slot' % {52: 'deallocation', 60: 'initialisation'}[nm])
