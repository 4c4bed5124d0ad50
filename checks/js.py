"""P27, P28: the JavaScript wrapper of the WebAssembly library."""
import os
import re
from fractions import Fraction as Fr
from sa import build, ir
from sa.build import REPO
from sa.harness import *
from sa.jsi import Interp, paths, tree, L, O, Fun, Cls, UNDEFINED, NULLV, JsUndecided, JsThrow, Nat
from sa.engine import where

OPTS = {'low': 0, 'discardAnomalies': 1, 'level': Fr(98, 100), 'maxExcess': 500}
METHODS = {'step': 'spot_step', 'quantile': 'spot_quantile', 'probability': 'spot_probability', 'fit': 'spot_fit'}


def loc(line, what=''):
    return 'index.ts:%s%s' % (line, ' (%s)' % what if what else '')


def at(n, dv=0):
    return L(dv, {n: 1})


def config(given):
    c = O('config', q=at('config.q'))
    for k in OPTS:
        if k in given:
            c.p[k] = at('config.' + k)
    return c


def construct(it, given=()):
    return it.new(it.exports.get('Spot') or it.exports.get('default'), [config(given)], it.top)


def fresh_spot(it):
    """an initialised detector; the trace of the construction is dropped"""
    o = construct(it)
    it.trace.clear()
    it.viol.clear()
    return o


def spot_paths(ast, entry):
    for it, r in paths(ast, entry):
        yield it, r


class Skip(Exception):
    pass


def on_spot(f):
    """run f on a detector whose construction succeeded"""
    def entry(it):
        try:
            o = fresh_spot(it)
        except JsThrow:
            raise Skip()
        it.owned = {k for k, b in it.blocks.items() if not b['freed']}
        it.base = owner_ptr(it, o)
        return f(it, o)
    return entry


def owner_ptr(it, o):
    for k, v in o.p.items():
        if isinstance(v, L) and it.block_of(v)[0] is not None and it.block_of(v)[1].const() == 0:
            return v
    return None


def all_paths(ast, entry):
    gen = paths(ast, entry)
    while True:
        try:
            yield next(gen)
        except StopIteration:
            return


def run_entry(ast, entry):
    """like paths() but entries that raise Skip are dropped"""
    out = []

    def e(it):
        try:
            return entry(it)
        except Skip:
            return Skip
    for it, r in paths(ast, e):
        if r[0] == 'ok' and r[1] is Skip:
            continue
        out.append((it, r))
    return out


def setup(b):
    p = os.path.join(REPO, 'wasm', 'index.ts')
    if not os.path.exists(p):
        raise Missing('wasm/index.ts not found')
    ast = tree(p)
    it = Interp(ast, [])
    try:
        it.load()
    except JsUndecided as ex:
        raise Undecided('index.ts: %s' % ex)
    if not isinstance(it.exports.get('Spot') or it.exports.get('default'), Cls):
        raise Missing('class Spot not exported by wasm/index.ts')
    return ast, it


def entries(it0):
    """(name, entry) for every exported function and method"""
    cls = it0.exports.get('Spot') or it0.exports.get('default')
    out = []
    out.append(('constructor', lambda it: construct(it)))
    out.append(('constructor with options', lambda it: construct(it, OPTS)))
    for m in cls.node['members']:
        if m['k'] in ('MethodDeclaration', 'GetAccessor') and not Interp.has_mod(m, 'StaticKeyword'):
            n = it0.pname(m['name'])
            np = len(m.get('parameters', []))

            def f(it, o, n=n, np=np, k=m['k']):
                if k == 'GetAccessor':
                    return it.get(o, n)
                args = [O('data')] if n == 'fit' else [at('arg')][:np]
                return it.callf(it.get(o, n), args, o)
            out.append((n, on_spot(f)))
    for n, v in it0.exports.items():
        if isinstance(v, (Fun, Nat)):
            np = len(v.node.get('parameters', [])) if isinstance(v, Fun) else 0
            out.append((n, lambda it, n=n, np=np: it.callf(it.exports[n], [at('code#arg' if n == 'libspotError' else 'arg')][:np])))
    return out


def p27(ctx, b, tier):
    b.rule('released', 'every block of the heap obtained by a call is released exactly once on every path, also when an error is thrown')
    b.rule('bounds', 'only memory inside live blocks is read, written or given to the library')
    b.rule('view', 'no view of the heap obtained before an allocation is used after it')
    b.rule('owner', 'a detector is registered for finalisation exactly when its construction succeeds, and released otherwise')
    b.rule('finalizer', 'the finaliser releases the storage of the detector and then the detector, once each')
    ast, it0 = setup(b)
    kinds = {'freed': 'bounds', 'bounds': 'bounds', 'double': 'released', 'stale': 'view'}
    for name, entry in entries(it0):
        for it, r in run_entry(ast, entry):
            b.cov['partitions'] += 1
            if r[0] == 'undecided':
                b.und('released', name, r[1])
                continue
            for w, line, msg in it.viol:
                b.bad(kinds[w], loc(line, name), msg)
            if not it.viol:
                b.ok('bounds', name)
                b.ok('view', name)
            how = 'an error is thrown' if r[0] == 'throw' else 'it returns'
            owned = getattr(it, 'owned', set())
            regs = [e for e in it.trace if e['kind'] == 'register']
            live = [k for k, x in it.blocks.items() if not x['freed'] and k not in owned]
            if name.startswith('constructor'):
                if r[0] == 'throw':
                    if live:
                        b.bad('owner', loc(r[2], name), 'the memory of a detector whose construction failed is not released')
                    else:
                        b.ok('owner', name)
                    if regs:
                        b.bad('owner', loc(regs[0]['line'], name), 'a detector whose construction failed is registered for finalisation: its memory would be released again')
                    sf = [e for e in it.trace if e['kind'] == 'ccall' and e['name'] == 'spot_free']
                    if sf:
                        b.bad('owner', loc(sf[0]['line'], name), 'spot_free is called on a detector that was not initialised')
                    continue
                p = owner_ptr(it, r[1])
                own = [k for k in live if p is not None and k in p.t]
                extra = [k for k in live if k not in own]
                for k in extra:
                    b.bad('released', loc(it.blocks[k]['line'], name), 'a block is not released when %s' % how)
                if not own:
                    b.bad('owner', name, 'the detector built holds no memory (or released memory)')
                    continue
                if len(regs) != 1:
                    b.bad('owner', name, 'a detector is registered %d times for finalisation' % len(regs))
                    continue
                reg = regs[0]
                if isinstance(reg['held'], L) and reg['held'] != p:
                    b.bad('owner', loc(reg['line'], name), 'the value given to the finaliser (%r) is not the address of the detector (%r)' % (reg['held'], p))
                    continue
                if reg['target'] is not r[1]:
                    b.bad('owner', loc(reg['line'], name), 'the object registered is not the detector')
                    continue
                b.ok('owner', name)
                continue
            if live:
                for k in live:
                    b.bad('released', loc(it.blocks[k]['line'], name), 'the block obtained here is not released when %s' % how)
            else:
                b.ok('released', name, how)
            lost = [k for k in owned if it.blocks[k]['freed']]
            if lost:
                b.bad('owner', name, 'the memory of the detector is released although it stays registered')

    def final(it):
        o = construct(it, OPTS)
        regs = [e for e in it.trace if e['kind'] == 'register']
        p = owner_ptr(it, o)
        if len(regs) != 1 or p is None or (isinstance(regs[0]['held'], L) and regs[0]['held'] != p):
            return Skip
        it.trace.clear()
        it.viol.clear()
        it.before = it.used
        it.knew = set(it.known)
        it.fin = True
        it.callf(regs[0]['reg'].p['cb'], [regs[0]['held']])
        return p
    name = 'finaliser'
    for it, r in run_entry(ast, final):
        if not hasattr(it, 'fin'):
            continue
        b.cov['partitions'] += 1
        if r[0] == 'undecided':
            b.und('finalizer', name, r[1])
            continue
        if r[0] == 'throw':
            b.bad('finalizer', name, 'the finaliser throws')
            continue
        p = r[1]
        # decisions of the finaliser on anything but the address are no witness of a violation
        new = [x for x in it.known if x not in it.knew]
        plain = it.used - it.before == len(new) and all(re.fullmatch(r"block#\d+", y) for x in new for y in re.findall(r"[A-Za-z_.]+#?\d*", repr(x[1:])) if y[0].isalpha() and y != 'Fraction')
        bad = b.bad if plain else b.und
        seq = [(e['name'] if e['kind'] == 'ccall' else 'free', e['args'][0] if e['kind'] == 'ccall' else e['ptr'], e['line'])
               for e in it.trace if e['kind'] in ('ccall', 'free')]
        sf = [x for x in seq if x[0] == 'spot_free']
        fr = [x for x in seq if x[0] == 'free']
        w = loc(seq[0][2] if seq else 0, 'finaliser')
        if len(sf) != 1 or sf[0][1] != p:
            bad('finalizer', w, 'the storage of the detector is released %d times by the finaliser' % len([x for x in sf if x[1] == p]))
        elif len(fr) != 1 or fr[0][1] != p:
            bad('finalizer', w, 'the detector itself is released %d times by the finaliser' % len([x for x in fr if x[1] == p]))
        elif seq.index(sf[0]) > seq.index(fr[0]):
            b.bad('finalizer', w, 'the detector is released before its storage')
        else:
            b.ok('finalizer', w)
        for wv, line, msg in it.viol:
            if wv != 'freed':
                b.bad('finalizer', loc(line), msg)


def rd(v):
    return isinstance(v, O) and v.kind == 'read'


def p28(ctx, b, tier):
    b.rule('constants', 'the exported constants are those of the library')
    b.rule('signature', 'every C function used exists, is exported by the build, and is declared and called with the arguments of its prototype')
    b.rule('init', 'the constructor passes its options, or the documented defaults, to the library')
    b.rule('call', 'each method passes its argument to the library function of its name on the own detector and returns its result')
    b.rule('error', 'a negative code throws an Error with the message of that code; nothing else throws')
    b.rule('fit', 'fit hands over exactly the numbers of the given array')
    b.rule('field', 'the threshold accessors read the fields of the library structure (wasm32 layout)')
    b.rule('text', 'texts are received in a block of the announced size and read from it')
    b.rule('main', 'the C entry points of the wrapper allocate a whole detector and register matching allocators')
    need = needs(ctx)
    ast, it0 = setup(b)
    lay = build.layout('wasm32-unknown-unknown')['Spot']
    # constants
    for n in ('NORMAL', 'EXCESS', 'ANOMALY'):
        v = it0.exports.get(n)
        if v is None:
            b.bad('constants', 'index.ts', 'constant %s is not exported' % n)
        elif not isinstance(v, L) or v.const() is None:
            b.und('constants', 'index.ts', '%s = %r' % (n, v))
        elif v.const() != ctx.en[n]:
            b.bad('constants', 'index.ts', 'constant %s is %s, the library uses %d' % (n, v.const(), ctx.en[n]))
        else:
            b.ok('constants', 'index.ts', n)
    # prototypes
    mc = main_ir(ctx, b)
    protos = {}
    for f in list(ctx.m.defined) + (list(mc.defined) if mc else []):
        protos[f.name] = (len(f.args), f.ret.kind, [a.ty.kind for a in f.args])
    mk = open(os.path.join(REPO, 'Makefile'), encoding='utf-8', errors='replace').read()
    ex = re.search(r'^WASM_EXPORTED_FUNCTIONS\s*[:+?]?=\s*(.*)$', mk, re.M)
    exported = {x.strip() for x in ex.group(1).replace('\\', ' ').replace(' ', ',').split(',') if x.strip()} if ex else None
    seen = set()

    def signature(name, ret, n, line, called):
        if (name, called, n) in seen:
            return
        seen.add((name, called, n))
        w = loc(line)
        pr = {'malloc': (1, 'ptr', ['int']), 'free': (1, 'void', ['ptr'])}.get(name) or protos.get(name)
        if pr is None:
            b.bad('signature', w, 'the library defines no function %s' % name)
            return
        if exported is not None and '_' + name not in exported:
            b.bad('signature', w, 'the function %s is not exported by the build (WASM_EXPORTED_FUNCTIONS)' % name)
        if n != pr[0]:
            b.bad('signature', w, '%s takes %d arguments, %d are %s' % (name, pr[0], n, 'given' if called else 'declared'))
        elif ret is not None and (ret is NULLV) != (pr[1] == 'void'):
            if ret is NULLV:
                b.bad('signature', w, 'the result of %s is discarded (declared without a result)' % name)
            else:
                b.ok('signature', w, name)
        elif ret == 'string':
            b.bad('signature', w, '%s returns a number, not a text' % name)
        elif ret == 'boolean':
            b.bad('signature', w, 'the result of %s is read as a boolean' % name)
        else:
            b.ok('signature', w, name)
    for e in it0.trace:
        if e['kind'] == 'cwrap':
            signature(e['name'], e['ret'], len(e['args']), e['line'], False)

    def scan(it):
        for e in it.trace:
            if e['kind'] == 'cwrap':
                signature(e['name'], e['ret'], len(e['args']), e['line'], False)
            if e['kind'] == 'call':
                signature(e['name'], None, e['n'], e['line'], True)
                if e['sig'] is not None and len(e['sig'][1]) != e['n']:
                    pass

    # constructor
    for given in ((), tuple(OPTS)) + tuple((k,) for k in OPTS):
        for it, r in run_entry(ast, lambda it: construct(it, given)):
            b.cov['partitions'] += 1
            scan(it)
            if r[0] == 'undecided':
                b.und('init', 'constructor', r[1])
                continue
            c = [e for e in it.trace if e['kind'] == 'ccall' and e['name'] == 'spot_init']
            if len(c) != 1:
                b.bad('init', 'constructor', 'spot_init is called %d times' % len(c))
                continue
            w = loc(c[0]['line'], 'constructor')
            a = c[0]['args']
            want = [None, at('config.q')] + [at('config.' + k) if k in given else L(OPTS[k]) for k in ('low', 'discardAnomalies', 'level', 'maxExcess')]
            for i, nm in enumerate(('ptr', 'q', 'low', 'discardAnomalies', 'level', 'maxExcess')):
                if i == 0 or i >= len(a):
                    continue
                if a[i] == want[i]:
                    b.ok('init', w, nm)
                elif isinstance(a[i], L):
                    b.bad('init', w, '%s passed to the library is %r, expected %r%s' % (nm, a[i], want[i], '' if nm in given or nm == 'q' else ' (default)'))
                else:
                    b.und('init', w, '%s is %r' % (nm, a[i]))
            new = [e for e in it.trace if e['kind'] == 'malloc']
            k, off = it.block_of(a[0])
            if k is None or off.const() != 0:
                b.bad('init', w, 'spot_init is given %r instead of the detector' % (a[0],))
            elif it.blocks[k]['kind'] != 'spot':
                sz = it.blocks[k]['size']
                if sz is not None and sz.const() is not None and sz.const() < lay['#size']:
                    b.bad('init', w, 'the detector has %s bytes, %d are needed' % (sz.const(), lay['#size']))
                elif sz is None or sz.const() is None:
                    b.und('init', w, 'size of the detector')
            thrown(b, 'constructor', it, r, c[0]['ret'])
            if r[0] == 'ok':
                p = owner_ptr(it, r[1])
                if p == a[0]:
                    b.ok('init', w, 'the object refers to the detector')
                else:
                    b.bad('init', w, 'the object does not refer to the detector initialised')
    cls = it0.exports.get('Spot') or it0.exports.get('default')
    have = {it0.pname(m['name']) for m in cls.node['members'] if m['k'] in ('MethodDeclaration', 'GetAccessor')}
    for nm in list(METHODS) + ['anomaly_threshold', 'excess_threshold']:
        if nm not in have:
            b.bad('call', 'class Spot', 'method %s is missing' % nm)
    for name, entry in entries(it0):
        if name.startswith('constructor'):
            continue
        for it, r in run_entry(ast, entry):
            b.cov['partitions'] += 1
            scan(it)
            if r[0] == 'undecided':
                b.und('call', name, r[1])
                continue
            calls = [e for e in it.trace if e['kind'] == 'ccall']
            if name in METHODS:
                f = METHODS[name]
                c = [e for e in calls if e['name'] == f]
                oth = [e for e in calls if e['name'].startswith('spot_') and e['name'] != f]
                if oth:
                    b.bad('call', loc(oth[0]['line'], name), 'method %s calls %s' % (name, oth[0]['name']))
                if len(c) != 1:
                    b.bad('call', name, 'method %s calls %s %d times' % (name, f, len(c)))
                    continue
                w = loc(c[0]['line'], name)
                a = c[0]['args']
                if a[0] != it.base:
                    b.bad('call', w, '%s is given %r instead of the detector' % (f, a[0]))
                else:
                    b.ok('call', w, 'detector')
                if name == 'fit':
                    fit(b, it, c[0], w)
                elif len(a) > 1 and a[1] == at('arg'):
                    b.ok('call', w, 'argument')
                elif len(a) > 1:
                    (b.bad if isinstance(a[1], L) else b.und)('call', w, '%s is given %r instead of the argument' % (f, a[1]))
                if name in ('quantile', 'probability'):
                    if r[0] == 'throw':
                        b.bad('error', loc(r[2], name), '%s throws' % name)
                    elif r[1] == c[0]['ret']:
                        b.ok('call', w, 'result')
                    else:
                        b.bad('call', w, '%s returns %r instead of the result of %s' % (name, r[1], f))
                else:
                    thrown(b, name, it, r, c[0]['ret'])
                    if r[0] == 'ok' and name == 'step':
                        if r[1] == c[0]['ret']:
                            b.ok('call', w, 'result')
                        else:
                            b.bad('call', w, 'step returns %r instead of the code of the library' % (r[1],))
                    if r[0] == 'ok' and name == 'fit' and not (isinstance(r[1], L) and r[1].const() == 0):
                        b.bad('call', w, 'fit returns %r on success' % (r[1],))
            elif name in ('anomaly_threshold', 'excess_threshold'):
                if r[0] == 'throw':
                    b.bad('field', loc(r[2], name), 'the accessor throws')
                    continue
                v = r[1]
                if not rd(v):
                    b.und('field', name, 'returns %r' % (v,))
                    continue
                d = v.p['addr'] - it.base
                if d.const() != lay[name]:
                    fl = [k for k, o in lay.items() if not k.endswith('#size') and d.const() is not None and o == d.const()]
                    b.bad('field', name, 'reads offset %r of the detector%s, the field is at %d' % (d, ' (%s)' % fl[0] if fl else '', lay[name]))
                elif v.p['ty'] != 'Float64' or v.p['n'] != 8:
                    b.bad('field', name, 'reads a %s' % v.p['ty'])
                elif not v.p['le']:
                    b.bad('field', name, 'reads the number in the wrong byte order (the memory of WebAssembly is little-endian)')
                else:
                    b.ok('field', name)
            elif name in ('libspotError', 'libspotVersion'):
                f = 'libspot_error' if name == 'libspotError' else 'libspot_version'
                c = [e for e in calls if e['name'] == f]
                if len(c) != 1:
                    b.bad('text', name, '%s is called %d times' % (f, len(c)))
                    continue
                w = loc(c[0]['line'], name)
                if f == 'libspot_error' and c[0]['args'][0] != at('code#arg'):
                    b.bad('text', w, 'the message of code %r is asked' % (c[0]['args'][0],))
                text(b, it, r, c[0], w, name, need)
            elif name == 'spotSize':
                c = [e for e in calls if e['name'] == 'spot_size']
                if len(c) == 1 and r[0] == 'ok' and r[1] == c[0]['ret']:
                    b.ok('call', name)
                else:
                    b.bad('call', name, 'spotSize does not return the size given by the library')


def thrown(b, name, it, r, code):
    neg = isinstance(code, L) and code.t and it.facts.get(next(iter(code.t))) == -1
    if r[0] == 'throw':
        if not neg:
            b.bad('error', loc(r[2], name), '%s throws although the library reports no error' % name)
            return
        v = r[1]
        c = [e for e in it.trace if e['kind'] == 'ccall' and e['name'] == 'libspot_error']
        if not isinstance(v, O) or v.kind != 'error':
            b.bad('error', loc(r[2], name), 'the value thrown is not an Error')
        elif not c:
            b.bad('error', loc(r[2], name), 'the error does not carry the message of the library')
        elif c[-1]['args'][0] != code.scale(-1):
            b.bad('error', loc(r[2], name), 'the message is that of code %r, the code is %r' % (c[-1]['args'][0], code.scale(-1)))
        else:
            m = v.p.get('message')
            if isinstance(m, O) and m.kind == 'string' and m.p.get('text') and m.p['text'][0] == 'libspot_error':
                b.ok('error', name)
            elif isinstance(m, O) and m.kind == 'string':
                b.und('error', name, 'message composed')
            else:
                b.bad('error', loc(r[2], name), 'the error does not carry the message of the library')
    elif neg:
        b.bad('error', name, 'the error code of the library is not reported')
    else:
        b.ok('error', name)


def fit(b, it, c, w):
    a = c['args']
    n = at('data.length')
    if len(a) < 3:
        return
    if a[2] != n:
        b.bad('fit', w, 'spot_fit is given the length %r instead of %r' % (a[2], n))
    else:
        b.ok('fit', w, 'length')
    k, off = it.block_of(a[1])
    if k is None or off.const() != 0:
        b.bad('fit', w, 'spot_fit is given %r instead of the copy of the data' % (a[1],))
        return
    cp = [e for e in it.trace if e['kind'] == 'copy' and it.block_of(e['dst'])[0] == k]
    if len(cp) != 1:
        # a path that depends on the length of the array (an empty one) need not copy anything
        dep = any('data.length' in repr(kk) for kk in it.known) or any(e['kind'] == 'write' for e in it.trace)
        (b.bad if not cp and not dep else b.und)('fit', w, '%d copies into the block given to spot_fit' % len(cp))
        return
    e = cp[0]
    we = loc(e['line'], 'fit')
    want = n.scale(8)
    if e['conv']:
        b.bad('fit', we, 'the numbers are converted to bytes one by one')
    elif it.block_of(e['dst'])[1].const() != 0:
        b.bad('fit', we, 'the copy starts at offset %r of the block' % (it.block_of(e['dst'])[1],))
    elif e['src'] != at('data.byteOffset'):
        b.bad('fit', we, 'the copy starts at byte %r of the underlying buffer, the array starts at its byteOffset' % (e['src'],))
    elif e['n'] != want:
        b.bad('fit', we, 'the copy has %r bytes, the array has %r' % (e['n'], want))
    else:
        b.ok('fit', we, 'copy')
    order = [x for x in it.trace if x is e or x is c]
    if order and order[0] is not e:
        b.bad('fit', we, 'the data are copied after the fit')


def text(b, it, r, c, w, name, need):
    i = 1 if c['name'] == 'libspot_error' else 0
    ptr, size = c['args'][i], c['args'][i + 1]
    k, off = it.block_of(ptr)
    if r[0] == 'throw':
        b.bad('text', loc(r[2], name), '%s throws' % name)
        return
    v = r[1]
    if k is None:
        b.bad('text', w, 'the text is written to %r, not to a block of the heap' % (ptr,))
        return
    if not isinstance(v, O) or v.kind != 'string' or v.p.get('addr') is None:
        b.und('text', w, 'returns %r' % (v,))
        return
    d = v.p['addr'] - ptr
    if d.const() != 0:
        b.bad('text', w, 'the text is read at offset %r of the buffer' % d)
    elif v.p['text'] is None:
        b.bad('text', w, 'the buffer is read before the library fills it')
    elif v.p['rev']:
        b.bad('text', w, 'the text is reversed')
    elif isinstance(v.p['n'], L) and isinstance(size, L) and (v.p['n'] - size).const() is not None and (v.p['n'] - size).const() < 0:
        b.bad('text', w, 'only %r of the %r bytes of the text are read' % (v.p['n'], size))
    else:
        b.ok('text', w)
    st = v.p.get('stripped')
    if isinstance(st, str) and st.startswith('/') and '\\0' in st and 'g' not in st[st.rindex('/'):]:
        b.bad('text', w, 'only the first of the NUL bytes that follow the text is removed')
    if st is None and not v.p.get('cut') and isinstance(v.p['n'], L) and v.p['n'] == size and size.const() is not None and size.const() > need[i] + 1 \
            and not any('index#' in repr(x) or 'strlen#' in repr(x) for x in it.known):
        b.bad('text', w, 'the NUL bytes that follow the text in the buffer are returned with it')
    if isinstance(size, L) and size.const() is not None and size.const() <= need[i]:
        b.bad('text', w, 'the longest text of the library (%d bytes) is cut to %s bytes' % (need[i], size.const()))
    if i and need[2]:
        # the library writes nothing for a code it does not know: the block then keeps what malloc left in it
        pos = next(j for j, e in enumerate(it.trace) if e is c)
        if not any(e['kind'] in ('fill', 'copy', 'write') and it.block_of(e.get('addr', e.get('dst')))[0] == k for e in it.trace[:pos]):
            if not any(x['kind'] == 'cwrap' and x['name'] == 'calloc' for x in it.trace):
                b.bad('text', w, 'the buffer is not cleared: for a code without message (ERR_DATA_IS_NAN for instance) the text is what the heap contains')


def needs(ctx):
    """lengths of the version and of the longest message; whether libspot_error can leave the buffer as it is"""
    from .pyext import lengths
    v = 0
    for n, g in ctx.m.globals.items():
        if 'version' not in n or g.init is None:
            continue
        d = g.init
        if d.kind == 'global':
            g2 = ctx.m.globals.get(d.v)
            d = g2.init if g2 is not None else None
        if d is not None and d.kind == 'agg' and all(c.kind == 'int' for c in d.v):
            v = max(v, len(''.join(chr(c.v & 255) for c in d.v).rstrip('\0')))
    return v, max(lengths(ctx)['init'], 63), silent(ctx)


def silent(ctx):
    """a path of libspot_error from its entry to a return passes no call and no store through the buffer"""
    f = ctx.m.functions.get('libspot_error')
    if f is None or f.decl:
        return False
    seen, todo = set(), [f.blocks[0]]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if any(i.op == 'store' or (i.op == 'call' and 'llvm.' not in str(i.callee)) for i in x.insts):
            continue
        if x.insts[-1].op == 'ret':
            return True
        todo += list(x.insts[-1].succs or [])
    return False


def main_ir(ctx, b):
    src = os.path.join(REPO, 'wasm', 'main.c')
    if not os.path.exists(src):
        b.bad('main', 'wasm/main.c', 'missing')
        return None
    d = os.path.join(build.scratch(), 'wasmmain')
    os.makedirs(os.path.join(d, 'wasm'), exist_ok=True)
    os.makedirs(os.path.join(d, 'dist'), exist_ok=True)
    os.makedirs(os.path.join(d, 'stub'), exist_ok=True)
    open(os.path.join(d, 'wasm', 'main.c'), 'w').write(open(src).read())
    open(os.path.join(d, 'dist', 'spot.h'), 'w').write('#include "%s"\n' % os.path.join(REPO, 'include', 'spot.h'))
    open(os.path.join(d, 'stub', 'emscripten.h'), 'w').write('#define EMSCRIPTEN_KEEPALIVE __attribute__((used))\n')
    o = os.path.join(d, 'm.bc')
    build.run([build.tool('clang')] + build.cflags() + ['-I' + os.path.join(d, 'stub'), '-emit-llvm', '-c', os.path.join(d, 'wasm', 'main.c'), '-o', o])
    n = os.path.join(d, 'n.bc')
    build.run([build.tool('opt'), '-passes=' + build.PASSES, o, '-o', n])
    m = ir.Module(n)
    size = ctx.lay['Spot']['#size']

    def ev(name, ret):
        def h(E, st, ins, a):
            st.events = st.events + (Event(name, list(a), None, ins),)
            return [(st, ret(E, st, a))]
        return h
    models = {'malloc': ev('malloc', lambda E, st, a: Ptr(E.new_obj(st, 'block', a[0], 'heap').id, iconst(64, 0))),
              'set_allocators': ev('set_allocators', lambda E, st, a: None)}
    for f in ('spot_new', 'spot_size', 'main'):
        if f not in m.functions or m.functions[f].decl:
            b.bad('main', 'wasm/main.c', 'function %s is missing' % f)
            continue
        E = Engine(m, models=models)
        st = State()
        args = [iconst(32, 0), NULL][:len(m.functions[f].args)]
        try:
            res = E.call(st, f, args)
        except Undecided as ex:
            b.und('main', f, str(ex))
            continue
        b.engine(E)
        for s, v in res:
            if f == 'spot_size':
                if isinstance(v, I) and v.const() == size:
                    b.ok('main', f)
                elif isinstance(v, I) and v.const() is not None:
                    b.bad('main', f, 'spot_size gives %s, a detector has %d bytes' % (v.const(), size))
                else:
                    b.und('main', f, repr(v))
            elif f == 'spot_new':
                e = [x for x in s.events if x.name == 'malloc']
                if len(e) != 1 or not isinstance(v, Ptr):
                    b.und('main', f, 'spot_new')
                elif e[0].args[0].const() is not None and e[0].args[0].const() < size:
                    b.bad('main', where(e[0].inst), 'spot_new obtains %s bytes, a detector has %d' % (e[0].args[0].const(), size))
                else:
                    b.ok('main', f)
            else:
                e = [x for x in s.events if x.name == 'set_allocators']
                a = [getattr(x, 'name', None) for x in e[-1].args] if e else []
                if not e:
                    b.bad('main', f, 'no allocator is registered: every construction would fail')
                elif a == ['malloc', 'free']:
                    b.ok('main', f)
                else:
                    b.bad('main', where(e[-1].inst), 'the allocators registered are %s' % a)
    return m
