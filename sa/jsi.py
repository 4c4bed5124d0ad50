"""Abstract interpreter for the TypeScript wrapper: symbolic numbers, the WebAssembly heap as blocks, all outcomes of the
wrapped C functions and of undecided conditions enumerated path by path."""
import json
import os
import subprocess
from fractions import Fraction as Fr
from . import build


class JsUndecided(Exception):
    pass


class JsReturn(Exception):
    def __init__(self, v):
        self.v = v


class JsThrow(Exception):
    def __init__(self, v, line):
        self.v, self.line = v, line


class JsBreak(Exception):
    pass


class JsContinue(Exception):
    pass


class L:
    """linear form over named unknowns"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = Fr(c)
        self.t = {k: v for k, v in (t or {}).items() if v}

    def __add__(s, o):
        t = dict(s.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return L(s.c + o.c, t)

    def scale(s, k):
        return L(s.c * k, {a: v * k for a, v in s.t.items()})

    def __sub__(s, o):
        return s + o.scale(-1)

    def const(s):
        return s.c if not s.t else None

    def key(s):
        return (s.c, tuple(sorted(s.t.items())))

    def __eq__(s, o):
        return isinstance(o, L) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        p = [('%s' % a if v == 1 else '%s*%s' % (v, a)) for a, v in sorted(s.t.items())]
        if s.c or not p:
            p.append(str(s.c if s.c.denominator == 1 else float(s.c)))
        return ' + '.join(p)


UNDEFINED = type('Undefined', (), {'__repr__': lambda s: 'undefined'})()
NULLV = type('NullV', (), {'__repr__': lambda s: 'null'})()


class O:
    """object with a kind and properties"""

    def __init__(self, kind, **p):
        self.kind = kind
        self.p = p

    def __repr__(self):
        return self.kind


class Fun:
    def __init__(self, node, env, this=None):
        self.node, self.env, self.this = node, env, this


class Nat:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return 'native ' + self.name


class Cls:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Env:
    def __init__(self, parent=None):
        self.v = {}
        self.parent = parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.parent
        return None


def tree(path):
    p = subprocess.run(['node', os.path.join(os.path.dirname(__file__), 'tsast.js'), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise build.BuildError('cannot parse %s: %s' % (path, p.stderr[-400:]))
    d = json.loads(p.stdout)
    if d['errors']:
        raise build.BuildError('%s: syntax errors' % path)
    return d


class Interp:
    MAXIT = 4

    def __init__(self, ast, decisions):
        self.ast = ast
        self.dec = list(decisions)
        self.used = 0
        self.ask = 0
        self.trace = []
        self.n = 0
        self.gen = 0            # generation of the heap views: an allocation may move the memory
        self.blocks = {}        # atom -> {'size', 'freed', 'kind'}
        self.facts = {}         # atom -> sign
        self.known = {}         # decided conditions
        self.exports = {}
        self.viol = []
        self.line = 0
        self.depth = 0
        self.top = Env()
        self.mod = O('module')
        self.globals()

    def bad(self, what, msg):
        self.viol.append((what, self.line, msg))

    # ------------------------------------------------------------ decisions
    def choose(self, n, what):
        """one of n outcomes"""
        if self.used < len(self.dec):
            r = self.dec[self.used][0]
        else:
            r = 0
            self.dec.append((0, n))
        self.used += 1
        return r

    def atom(self, name, sign=None):
        self.n += 1
        a = '%s#%d' % (name, self.n)
        if sign is not None:
            self.facts[a] = sign
        return a

    def event(self, kind, **kw):
        kw['kind'] = kind
        kw['line'] = self.line
        self.trace.append(kw)

    # ------------------------------------------------------------ globals
    def globals(self):
        g = self.top.v
        g['undefined'] = UNDEFINED
        g['NaN'] = O('nan')
        g['Infinity'] = O('inf')
        for n in ('Error', 'Uint8Array', 'Float64Array', 'DataView', 'TextDecoder', 'FinalizationRegistry', 'Int8Array', 'ArrayBuffer', 'RangeError', 'TypeError', 'WeakRef', 'Array', 'Object', 'String', 'Number'):
            g[n] = O('ctor', name=n)
        g['console'] = O('console')
        g['Math'] = O('Math')
        g['loadWASM'] = Nat('loadWASM', lambda this, a: self.mod)

    # ------------------------------------------------------------ the module
    def heap(self, es, ty):
        return O('heap', es=es, gen=self.gen, ty=ty)

    def check_view(self, h):
        if h.p.get('gen') is not None and h.p['gen'] != self.gen:
            self.bad('stale', 'a view of the heap obtained before an allocation is used after it (the memory may have moved)')

    def block_of(self, a):
        if not isinstance(a, L):
            return None, None
        for k, v in a.t.items():
            if k in self.blocks and v == 1:
                return k, a - L(0, {k: 1})
        return None, None

    def touch(self, a, n, what):
        k, off = self.block_of(a)
        if k is None:
            return
        b = self.blocks[k]
        if b['freed']:
            self.bad('freed', '%s after the block was released' % what)
        end = (off + n) if isinstance(n, L) else None
        if off.const() is not None and off.const() < 0:
            self.bad('bounds', '%s before the start of the block' % what)
        if end is not None and b['size'] is not None:
            d = (end - b['size'])
            c = d.const()
            if c is not None and c > 0:
                self.bad('bounds', '%s of %r bytes in a block of %r bytes' % (what, end, b['size']))
            elif c is None:
                # positive multiples of lengths
                if all(v > 0 for v in d.t.values()) and d.c >= 0 and all(x.startswith(('data.length', 'data.byteOffset', 'data.rest')) for x in d.t):
                    self.bad('bounds', '%s of %r bytes in a block of %r bytes' % (what, end, b['size']))

    def malloc(self, size, kind='malloc'):
        self.gen += 1
        a = self.atom('block')
        self.blocks[a] = {'size': size if isinstance(size, L) else None, 'freed': False, 'kind': kind, 'line': self.line}
        self.event('malloc', block=a, size=size)
        return L(0, {a: 1})

    def free(self, p):
        k, off = self.block_of(p)
        self.event('free', ptr=p, block=k)
        if k is None:
            return UNDEFINED
        if off.const() != 0:
            self.bad('bounds', 'release of an address inside a block')
        if self.blocks[k]['freed']:
            self.bad('double', 'a block is released twice')
        self.blocks[k]['freed'] = True
        return UNDEFINED

    def cfun(self, name, args):
        """a C function is called"""
        if name == 'malloc':
            return self.malloc(args[0])
        if name == 'free':
            return self.free(args[0])
        for a in args:
            self.touch(a, L(0), 'call of %s with a pointer' % name)
        if name == 'spot_new':
            p = self.malloc(None, 'spot')
            return p
        ret = UNDEFINED
        if name in ('spot_init', 'spot_fit'):
            if name == 'spot_init':
                self.gen += 1
            if self.choose(2, name) == 0:
                ret = L(0)
            else:
                ret = L(0, {self.atom('code', -1): 1})
        elif name == 'spot_step':
            ret = L(0, {self.atom('code', (1 if self.choose(2, name) == 0 else -1)): 1})
            if list(self.facts.values())[-1] == 1:
                self.facts[next(iter(ret.t))] = '>=0'
        elif name in ('spot_quantile', 'spot_probability', 'spot_size'):
            ret = L(0, {self.atom(name): 1})
        elif name in ('libspot_error', 'libspot_version', 'libspot_license'):
            i = 1 if name == 'libspot_error' else 0
            if len(args) > i + 1:
                self.touch(args[i], args[i + 1], name)
                k, _ = self.block_of(args[i])
                if k is not None:
                    self.blocks[k]['text'] = (name, args[0] if i else None, args[i + 1])
        elif name == 'spot_free':
            pass
        elif name == 'set_allocators':
            pass
        else:
            raise JsUndecided('C function %s' % name)
        self.event('ccall', name=name, args=list(args), ret=ret)
        return ret

    def cwrap(self, a):
        name = a[0]
        if not isinstance(name, str):
            raise JsUndecided('cwrap of a computed name')
        sig = (a[1] if len(a) > 1 else NULLV, a[2].p['items'] if len(a) > 2 and isinstance(a[2], O) else [])
        self.event('cwrap', name=name, ret=sig[0], args=sig[1])

        def call(this, args):
            self.event('call', name=name, n=len(args), sig=sig)
            return self.cfun(name, args)
        return Nat(name, call)

    def ccall(self, a):
        name = a[0]
        types = a[2].p['items'] if len(a) > 2 and isinstance(a[2], O) else []
        args = a[3].p['items'] if len(a) > 3 and isinstance(a[3], O) else []
        self.event('cwrap', name=name, ret=a[1] if len(a) > 1 else NULLV, args=types)
        self.event('call', name=name, n=len(args), sig=(a[1] if len(a) > 1 else NULLV, types))
        return self.cfun(name, args)

    # ------------------------------------------------------------ properties
    def get(self, o, n):
        if o is UNDEFINED or o is NULLV:
            raise JsThrow(O('TypeError'), self.line)
        if isinstance(o, L):
            if n in ('toString', 'toExponential', 'toFixed'):
                return Nat(n, lambda this, a: O('string', of=o))
            raise JsUndecided('property %s of a number' % n)
        if isinstance(o, str) or (isinstance(o, O) and o.kind == 'string'):
            if n == 'length':
                return L(len(o)) if isinstance(o, str) else L(0, {self.atom('strlen'): 1})
            return Nat(n, lambda this, a: self.strop(o, n, a))
        if isinstance(o, Cls):
            for m in o.node['members']:
                if m['k'] == 'MethodDeclaration' and self.has_mod(m, 'StaticKeyword') and self.pname(m['name']) == n:
                    return Fun(m, o.env, o)
                if m['k'] == 'PropertyDeclaration' and self.has_mod(m, 'StaticKeyword') and self.pname(m['name']) == n and 'initializer' in m:
                    return self.ev(m['initializer'], o.env)
            raise JsUndecided('static member %s' % n)
        if isinstance(o, (Fun, Nat)):
            if n in ('call', 'apply', 'bind'):
                raise JsUndecided('Function.%s' % n)
            return UNDEFINED
        k = o.kind
        if k == 'module':
            if n == 'cwrap':
                return Nat(n, lambda this, a: self.cwrap(a))
            if n == 'ccall':
                return Nat(n, lambda this, a: self.ccall(a))
            sizes = {'HEAP8': 1, 'HEAPU8': 1, 'HEAP16': 2, 'HEAPU16': 2, 'HEAP32': 4, 'HEAPU32': 4, 'HEAPF32': 4, 'HEAPF64': 8}
            if n in sizes:
                return self.heap(sizes[n], n)
            if n.startswith('_'):
                nm = n[1:]
                self.event('direct', name=nm)

                def call(this, a):
                    self.event('call', name=nm, n=len(a), sig=None)
                    return self.cfun(nm, a)
                return Nat(nm, call)
            raise JsUndecided('module member %s' % n)
        if k == 'heap':
            if n == 'buffer':
                return O('heapbuf', gen=o.p['gen'])
            if n == 'BYTES_PER_ELEMENT':
                return L(o.p['es'])
            if n in ('set', 'slice', 'subarray', 'fill', 'copyWithin'):
                return Nat(n, lambda this, a: self.heapop(o, n, a))
            raise JsUndecided('heap view .%s' % n)
        if k == 'bytes':        # copy (or subview) of heap bytes: addr, n, rev
            if n == 'reverse':
                def rev(this, a):
                    if o.p['live']:
                        self.bad('bounds', 'reversal in place of the bytes of the heap')
                    o.p['rev'] = not o.p['rev']
                    return o
                return Nat(n, rev)
            if n == 'buffer':
                if o.p['live']:
                    return O('heapbuf', gen=o.p['gen'])
                return O('buf', of=o)
            if n in ('byteOffset',):
                return o.p['addr'] if o.p['live'] else L(0)
            if n in ('length', 'byteLength'):
                return o.p['n']
            if n == 'slice' and True:
                def sl(this, a):
                    c = O('bytes', **o.p)
                    c.p['live'] = False
                    if len(a) > 1 and isinstance(a[0], L) and isinstance(a[1], L):
                        c.p['addr'] = o.p['addr'] + a[0]
                        c.p['n'] = a[1] - a[0]
                    elif a:
                        raise JsUndecided('slice of a slice')
                    return c
                return Nat(n, sl)
            if n == 'subarray':
                def sub(this, a):
                    if len(a) > 1 and isinstance(a[0], L) and isinstance(a[1], L):
                        c = O('bytes', **o.p)
                        c.p['addr'] = o.p['addr'] + a[0]
                        c.p['n'] = a[1] - a[0]
                        return c
                    raise JsUndecided('subarray')
                return Nat(n, sub)
            if n == 'filter':
                def flt(this, a):
                    c = O('bytes', **o.p)
                    c.p['live'] = False
                    c.p['n'] = L(0, {self.atom('kept'): 1})
                    return c
                return Nat(n, flt)
            if n == 'indexOf':
                return Nat(n, lambda this, a: L(0, {self.atom('index'): 1}))
            raise JsUndecided('bytes.%s' % n)
        if k == 'data':         # the Float64Array given by the caller
            p = {'length': L(0, {'data.length': 1}), 'BYTES_PER_ELEMENT': L(8), 'byteLength': L(0, {'data.length': 8}),
                 'byteOffset': L(0, {'data.byteOffset': 1}), 'buffer': O('databuf')}
            if n in p:
                return p[n]
            raise JsUndecided('data.%s' % n)
        if k == 'databuf':
            if n == 'byteLength':
                return L(0, {'data.byteOffset': 1, 'data.length': 8, 'data.rest': 1})
            if n == 'slice':
                def dsl(this, a):
                    st = a[0] if a else L(0)
                    en = a[1] if len(a) > 1 else self.get(o, 'byteLength')
                    return O('dataslice', start=st, n=en - st)
                return Nat(n, dsl)
            raise JsUndecided('buffer.%s' % n)
        if k == 'dataview8':
            if n in ('length', 'byteLength'):
                return o.p['n']
            raise JsUndecided('view.%s' % n)
        if k == 'sub64':
            if n == 'set':
                def s64(this, a):
                    src = a[0]
                    off = o.p['addr'] + (a[1] if len(a) > 1 else L(0)).scale(8)
                    if isinstance(src, O) and src.kind == 'data':
                        self.check_view(o)
                        self.touch(off, L(0, {'data.length': 8}), 'copy')
                        self.event('copy', dst=off, src=L(0, {'data.byteOffset': 1}), n=L(0, {'data.length': 8}), conv=False)
                        return UNDEFINED
                    raise JsUndecided('copy of %r' % (src,))
                return Nat(n, s64)
            raise JsUndecided('property %s of sub64' % n)
        if k == 'view':
            if n in ('getFloat64', 'getInt32', 'getUint32', 'getFloat32', 'getUint8'):
                return Nat(n, lambda this, a: self.viewget(o, n, a))
            raise JsUndecided('DataView.%s' % n)
        if k == 'decoder':
            if n == 'decode':
                return Nat(n, lambda this, a: self.decode(a))
        if k == 'registry':
            if n == 'register':
                def reg(this, a):
                    self.event('register', reg=o, target=a[0], held=a[1] if len(a) > 1 else UNDEFINED)
                    return UNDEFINED
                return Nat(n, reg)
            if n == 'unregister':
                def unreg(this, a):
                    self.event('unregister', reg=o)
                    return True
                return Nat(n, unreg)
        if k == 'console':
            return Nat(n, lambda this, a: UNDEFINED)
        if k == 'ctor' and o.p['name'] == 'Number':
            import sys
            c = {'EPSILON': 2.0 ** -52, 'MAX_VALUE': sys.float_info.max, 'MIN_VALUE': 5e-324, 'MAX_SAFE_INTEGER': 2 ** 53 - 1, 'MIN_SAFE_INTEGER': 1 - 2 ** 53}
            if n in c:
                return L(Fr(c[n]))
        if k == 'Math':
            if n in ('floor', 'ceil', 'abs', 'max', 'min', 'trunc', 'fround', 'round', 'sign', 'sqrt', 'cbrt', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'pow', 'random', 'sin', 'cos', 'tanh', 'hypot'):
                return Nat(n, lambda this, a: self.mathop(n, a))
            raise JsUndecided('Math.%s' % n)
        if k == 'array':
            if n == 'length':
                return L(len(o.p['items']))
            if n == 'join' and o.p.get('sep') is not None:
                def join(this, a):
                    r = O('string', **o.p['items'][0].p)
                    r.p['stripped'] = o.p['sep']
                    return r
                return Nat(n, join)
            raise JsUndecided('array.%s' % n)
        if n in o.p:
            return o.p[n]
        if k == 'instance':
            c = o.p['#class']
            while c is not None:
                for m in c.node['members']:
                    if m['k'] == 'MethodDeclaration' and self.pname(m['name']) == n:
                        return Fun(m, c.env, o)
                    if m['k'] == 'GetAccessor' and self.pname(m['name']) == n:
                        return self.callf(Fun(m, c.env, o), [], o)
                c = None
            return UNDEFINED
        if k in ('config', 'object', 'error'):
            return UNDEFINED
        raise JsUndecided('property %s of %s' % (n, k))

    WHOLE = ('block#', 'code#', 'data.length', 'data.byteOffset', 'spot_size#', 'strlen#', 'index#', 'kept#', 'config.low', 'config.discardAnomalies', 'config.maxExcess')

    def integral(self, a):
        """the value is a whole number"""
        return Fr(a.c).denominator == 1 and all(v.denominator == 1 and x.startswith(self.WHOLE) for x, v in a.t.items())

    def mathop(self, n, a):
        if n in ('floor', 'trunc', 'ceil', 'round') and isinstance(a[0], L):
            c = a[0].const()
            if c is not None:
                import math
                return L(math.ceil(c) if n == 'ceil' else math.floor(c + Fr(1, 2)) if n == 'round' else math.trunc(c) if n == 'trunc' else math.floor(c))
            return a[0] if self.integral(a[0]) else L(0, {self.atom(n): 1})
        if n == 'fround' and isinstance(a[0], L) and a[0].const() is not None:
            import struct
            return L(Fr(struct.unpack('f', struct.pack('f', float(a[0].const())))[0]))
        if n in ('max', 'min') and a and all(isinstance(x, L) for x in a):
            r = a[0]
            for x in a[1:]:
                if self.cmp('<' if n == 'max' else '>', r, x):
                    r = x
            return r
        if n == 'abs' and isinstance(a[0], L):
            return a[0].scale(-1) if self.cmp('<', a[0], L(0)) else a[0]
        return L(0, {self.atom(n): 1})

    def strop(self, o, n, a):
        if n in ('replace', 'replaceAll', 'trim', 'trimEnd', 'slice', 'substring', 'split'):
            r = O('string', **(o.p if isinstance(o, O) else {'lit': o}))
            if n in ('replace', 'replaceAll'):
                r.p['stripped'] = a[0].p.get('text') if isinstance(a[0], O) else a[0]
            elif n == 'split':
                if a and isinstance(a[0], str):
                    r.p['stripped'] = a[0]
                return O('array', items=[r], sep=a[0] if a and isinstance(a[0], str) else None)
            elif n in ('slice', 'substring'):
                r.p['cut'] = True
            return r
        if n in ('indexOf', 'search'):
            return L(0, {self.atom('index'): 1})
        raise JsUndecided('string.%s' % n)

    def decode(self, a):
        x = a[0]
        if isinstance(x, O) and x.kind == 'buf':
            x = x.p['of']
        if isinstance(x, O) and x.kind == 'bytes':
            if x.p['live']:
                self.check_view(x)
                self.touch(x.p['addr'], x.p['n'], 'read')
            return O('string', text=x.p.get('text'), n=x.p['n'], addr=x.p['addr'], block=x.p.get('block'), rev=x.p['rev'])
        raise JsUndecided('decode of %r' % (x,))

    def heapop(self, h, n, a):
        self.check_view(h)
        es = h.p['es']
        if n == 'set':
            src = a[0]
            off = (a[1] if len(a) > 1 else L(0)).scale(es)
            if isinstance(src, O) and src.kind == 'dataview8' and es == 1:
                self.touch(off, src.p['n'], 'copy')
                self.event('copy', dst=off, src=src.p['start'], n=src.p['n'], conv=False)
            elif isinstance(src, O) and src.kind == 'data':
                self.touch(off, L(0, {'data.length': es}), 'copy')
                self.event('copy', dst=off, src=L(0, {'data.byteOffset': 1}), n=L(0, {'data.length': es}), conv=h.p['ty'] != 'HEAPF64')
            elif isinstance(src, O) and src.kind == 'converted':
                self.touch(off, L(0, {'data.length': es}), 'copy')
                self.event('copy', dst=off, src=L(0), n=L(0, {'data.length': es}), conv=True)
            else:
                raise JsUndecided('copy of %r' % (src,))
            return UNDEFINED
        if n == 'fill':
            st = (a[1] if len(a) > 1 else L(0)).scale(es)
            if len(a) > 2:
                self.touch(st, a[2].scale(es) - st, 'fill')
            self.event('fill', addr=st, n=a[2].scale(es) - st if len(a) > 2 else None)
            return h
        if n in ('slice', 'subarray'):
            st = (a[0] if a else L(0)).scale(es)
            en = a[1].scale(es) if len(a) > 1 else None
            if en is None:
                raise JsUndecided('open-ended slice')
            self.touch(st, en - st, 'read')
            k, off = self.block_of(st)
            self.event('read', addr=st, n=en - st)
            return O('bytes', addr=st, n=en - st, rev=False, live=n == 'subarray', gen=h.p['gen'],
                     text=self.blocks[k].get('text') if k else None, block=k)
        raise JsUndecided('heap.%s' % n)

    def viewget(self, v, n, a):
        b = v.p['of']
        le = len(a) > 1 and a[1] is True
        at = a[0] if a else L(0)
        size = {'getFloat64': 8, 'getFloat32': 4, 'getInt32': 4, 'getUint32': 4, 'getUint8': 1}[n]
        if b.kind == 'heapbuf':
            self.check_view(b)
            addr = at + v.p['off']
            self.touch(addr, L(size), 'read')
            return O('read', addr=addr, n=size, le=le, ty=n[3:])
        x = b.p['of']
        if x.p['rev']:
            # the bytes are reversed: byte i of the view is byte n-1-i of the memory
            addr = x.p['addr'] + x.p['n'] - L(size) - at
            return O('read', addr=addr, n=size, le=not le, ty=n[3:])
        return O('read', addr=x.p['addr'] + at, n=size, le=le, ty=n[3:])

    # ------------------------------------------------------------ calls
    def pname(self, n):
        return n.get('escapedText', n.get('text'))

    @staticmethod
    def has_mod(n, m):
        return any(x['k'] == m for x in n.get('modifiers', []) or [])

    def bind(self, pat, v, env):
        k = pat['k']
        if k == 'Identifier':
            env.v[pat['escapedText']] = v
        elif k == 'ObjectBindingPattern':
            for e in pat['elements']:
                if 'dotDotDotToken' in e:
                    raise JsUndecided('rest element')
                key = self.pname(e.get('propertyName') or e['name'])
                x = self.get(v, key)
                if x is UNDEFINED and 'initializer' in e:
                    x = self.ev(e['initializer'], env)
                self.bind(e['name'], x, env)
        else:
            raise JsUndecided('pattern %s' % k)

    def callf(self, f, args, this=UNDEFINED):
        if isinstance(f, Nat):
            return f.f(this, args)
        if not isinstance(f, Fun):
            raise JsUndecided('call of %r' % (f,))
        self.depth += 1
        if self.depth > 30:
            raise JsUndecided('call depth')
        n = f.node
        env = Env(f.env)
        if n['k'] != 'ArrowFunction':
            env.v['this'] = f.this if f.this is not None else this
        for i, p in enumerate(n.get('parameters', [])):
            if 'dotDotDotToken' in p:
                env.v[self.pname(p['name'])] = O('array', items=list(args[i:]))
                break
            v = args[i] if i < len(args) else UNDEFINED
            if v is UNDEFINED and 'initializer' in p:
                v = self.ev(p['initializer'], env)
            self.bind(p['name'], v, env)
        b = n.get('body')
        try:
            if b is None:
                return UNDEFINED
            if b['k'] != 'Block':
                return self.ev(b, env)
            self.block(b['statements'], env)
            return UNDEFINED
        except JsReturn as r:
            return r.v
        finally:
            self.depth -= 1

    def new(self, c, args, env):
        if isinstance(c, Cls):
            o = O('instance')
            o.p['#class'] = c
            for m in c.node['members']:
                if m['k'] == 'PropertyDeclaration' and 'initializer' in m and not self.has_mod(m, 'StaticKeyword'):
                    e = Env(c.env)
                    e.v['this'] = o
                    o.p[self.pname(m['name'])] = self.ev(m['initializer'], e)
            for m in c.node['members']:
                if m['k'] == 'Constructor' and 'body' in m:
                    self.callf(Fun(m, c.env, o), args, o)
            return o
        if isinstance(c, O) and c.kind == 'ctor':
            n = c.p['name']
            if n.endswith('Error'):
                return O('error', message=args[0] if args else UNDEFINED, name=n)
            if n == 'FinalizationRegistry':
                return O('registry', cb=args[0])
            if n == 'TextDecoder':
                return O('decoder')
            if n in ('Uint8Array', 'Int8Array'):
                s = args[0]
                if isinstance(s, O) and s.kind == 'databuf':
                    st = args[1] if len(args) > 1 and args[1] is not UNDEFINED else L(0)
                    ln = args[2] if len(args) > 2 and args[2] is not UNDEFINED else self.get(s, 'byteLength') - st
                    return O('dataview8', start=st, n=ln)
                if isinstance(s, O) and s.kind == 'dataslice':
                    return O('dataview8', start=s.p['start'], n=s.p['n'])
                if isinstance(s, O) and s.kind == 'data':
                    return O('converted')
                if isinstance(s, O) and s.kind == 'heapbuf':
                    if len(args) > 2:
                        self.check_view(s)
                        self.touch(args[1], args[2], 'view')
                        k, off = self.block_of(args[1])
                        return O('bytes', addr=args[1], n=args[2], rev=False, live=True, gen=s.p['gen'], text=self.blocks[k].get('text') if k else None, block=k)
                    h = O('heap', es=1, gen=s.p['gen'], ty='HEAPU8')
                    return h
                if isinstance(s, O) and s.kind == 'bytes':
                    c2 = O('bytes', **s.p)
                    c2.p['live'] = False
                    return c2
                raise JsUndecided('new %s of %r' % (n, s))
            if n == 'Float64Array':
                s = args[0]
                if isinstance(s, O) and s.kind == 'heapbuf':
                    if len(args) == 1:
                        return O('heap', es=8, gen=s.p['gen'], ty='HEAPF64')
                    return O('sub64', addr=args[1], n=args[2] if len(args) > 2 else None, gen=s.p['gen'])
                if isinstance(s, O) and s.kind == 'data':
                    return s
                if isinstance(s, O) and s.kind == 'buf' and s.p['of'].kind == 'bytes':
                    return O('f64copy', of=s.p['of'])
                raise JsUndecided('new Float64Array')
            if n == 'DataView':
                s = args[0]
                if isinstance(s, O) and s.kind in ('buf', 'heapbuf'):
                    off = args[1] if len(args) > 1 else L(0)
                    if s.kind == 'buf' and off.const() != 0:
                        raise JsUndecided('DataView with offset')
                    return O('view', of=s, off=off)
                raise JsUndecided('DataView of %r' % (s,))
        raise JsUndecided('new %r' % (c,))

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if v is True or v is False:
            return v
        if v is UNDEFINED or v is NULLV:
            return False
        if isinstance(v, L):
            return not self.cmp('===', v, L(0))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, O) and v.kind in ('read', 'string', 'nan', 'unknown'):
            return self.choose(2, 'truth') == 0
        return True

    def sign(self, d):
        """sign of a linear form from the facts: '<' '>' '=' '>=' or None"""
        if not d.t:
            return '=' if d.c == 0 else ('>' if d.c > 0 else '<')
        lo = hi = True      # can be bounded below/above by d.c
        strict_lo = strict_hi = False
        for a, v in d.t.items():
            s = self.facts.get(a)
            if a.startswith(('data.', 'block#')):
                s = '>=0' if a.startswith('data.') else 1
            if s is None:
                return None
            pos = (s in (1, '>=0'))
            st = s in (1, -1)
            if (pos and v > 0) or (not pos and v < 0):
                hi = False
                strict_lo |= st
            else:
                lo = False
                strict_hi |= st
        if lo and (d.c > 0 or (d.c == 0 and strict_lo)):
            return '>'
        if lo and d.c == 0:
            return '>='
        if hi and (d.c < 0 or (d.c == 0 and strict_hi)):
            return '<'
        return None

    def cmp(self, op, a, b):
        if op in ('==', '!=', '===', '!=='):
            r = None
            if isinstance(a, L) and isinstance(b, L):
                s = self.sign(a - b)
                if s == '=':
                    r = True
                elif s in ('<', '>'):
                    r = False
                else:
                    r = self.remember(('=', (a - b).key()))
            elif type(a) is type(b) and isinstance(a, (str, bool)):
                r = a == b
            elif a is b:
                r = True
            elif (a in (UNDEFINED, NULLV)) and (b in (UNDEFINED, NULLV)) and op in ('==', '!='):
                r = True
            elif a in (UNDEFINED, NULLV) or b in (UNDEFINED, NULLV):
                r = False
            else:
                r = self.remember(('eq', repr(a), repr(b)))
            return r if op in ('==', '===') else not r
        if not isinstance(a, L) or not isinstance(b, L):
            return self.choose(2, 'compare') == 0
        d = a - b
        s = self.sign(d)
        if op in ('>', '<='):
            r = True if s == '>' else (False if s in ('<', '=') else None)
            if r is None:
                r = self.remember(('>', d.key()))
            return r if op == '>' else not r
        r = True if s == '<' else (False if s in ('>', '=', '>=') else None)
        if r is None:
            r = self.remember(('<', d.key()))
        return r if op == '<' else not r

    def remember(self, k):
        if k not in self.known:
            self.known[k] = self.choose(2, repr(k)) == 0
        return self.known[k]

    def ev(self, n, env):
        self.line = n['line']
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise JsUndecided('expression %s at line %d' % (k, n['line']))
        return m(n, env)

    def e_Identifier(self, n, env):
        e = env.find(n['escapedText'])
        if e is None:
            raise JsUndecided('name %s' % n['escapedText'])
        return e.v[n['escapedText']]

    def e_NumericLiteral(self, n, env):
        t = n['text'].replace('_', '')
        return L(int(t, 0) if t.lower().startswith(('0x', '0b', '0o')) else Fr(t))

    def e_StringLiteral(self, n, env):
        return n['text']
    e_NoSubstitutionTemplateLiteral = e_StringLiteral

    def e_TemplateExpression(self, n, env):
        return O('string')

    def e_RegularExpressionLiteral(self, n, env):
        return O('regex', text=n['text'])

    def e_ParenthesizedExpression(self, n, env):
        return self.ev(n['expression'], env)
    e_AsExpression = e_NonNullExpression = e_TypeAssertionExpression = e_AwaitExpression = e_SatisfiesExpression = e_ParenthesizedExpression

    def e_ThisKeyword(self, n, env):
        e = env.find('this')
        return e.v['this'] if e else UNDEFINED

    def e_NullKeyword(self, n, env):
        return NULLV

    def e_TrueKeyword(self, n, env):
        return True

    def e_FalseKeyword(self, n, env):
        return False

    def e_VoidExpression(self, n, env):
        self.ev(n['expression'], env)
        return UNDEFINED

    def e_TypeOfExpression(self, n, env):
        v = self.ev(n['expression'], env)
        if isinstance(v, L):
            return 'number'
        if v is UNDEFINED:
            return 'undefined'
        return O('string')

    def e_ArrowFunction(self, n, env):
        return Fun(n, env)
    e_FunctionExpression = e_ArrowFunction

    def e_ArrayLiteralExpression(self, n, env):
        return O('array', items=[self.ev(x, env) for x in n['elements']])

    def e_ObjectLiteralExpression(self, n, env):
        o = O('object')
        for p in n['properties']:
            if p['k'] == 'PropertyAssignment':
                o.p[self.pname(p['name'])] = self.ev(p['initializer'], env)
            elif p['k'] == 'ShorthandPropertyAssignment':
                o.p[self.pname(p['name'])] = self.ev(p['name'], env)
            elif p['k'] == 'SpreadAssignment':
                v = self.ev(p['expression'], env)
                if isinstance(v, O) and v.kind in ('config', 'object'):
                    o.p.update({a: b for a, b in v.p.items()})
                else:
                    raise JsUndecided('spread')
            else:
                raise JsUndecided(p['k'])
        return o

    def e_ConditionalExpression(self, n, env):
        return self.ev(n['whenTrue'] if self.truth(self.ev(n['condition'], env)) else n['whenFalse'], env)

    def e_PropertyAccessExpression(self, n, env):
        o = self.ev(n['expression'], env)
        if 'questionDotToken' in n and o in (UNDEFINED, NULLV):
            return UNDEFINED
        self.line = n['line']
        return self.get(o, self.pname(n['name']))

    def e_ElementAccessExpression(self, n, env):
        o = self.ev(n['expression'], env)
        i = self.ev(n['argumentExpression'], env)
        if isinstance(o, O) and o.kind == 'heap':
            self.check_view(o)
            a = i.scale(o.p['es'])
            self.touch(a, L(o.p['es']), 'read')
            return O('read', addr=a, n=o.p['es'], le=True, ty={'HEAPF64': 'Float64', 'HEAPF32': 'Float32'}.get(o.p['ty'], 'Int'))
        if isinstance(o, O) and o.kind == 'array' and isinstance(i, L) and i.const() is not None:
            it = o.p['items']
            return it[int(i.const())] if int(i.const()) < len(it) else UNDEFINED
        if isinstance(o, O) and o.kind == 'f64copy' and isinstance(i, L) and i.const() is not None:
            x = o.p['of']
            if x.p['rev']:
                return O('read', addr=x.p['addr'] + i.scale(8), n=8, le=False, ty='Float64')
            return O('read', addr=x.p['addr'] + i.scale(8), n=8, le=True, ty='Float64')
        if isinstance(o, O) and o.kind == 'sub64' and isinstance(i, L):
            self.check_view(o)
            return O('read', addr=o.p['addr'] + i.scale(8), n=8, le=True, ty='Float64')
        if isinstance(i, str):
            return self.get(o, i)
        raise JsUndecided('index of %r' % (o,))

    def e_CallExpression(self, n, env):
        f = n['expression']
        args = None
        if f['k'] == 'PropertyAccessExpression':
            o = self.ev(f['expression'], env)
            if 'questionDotToken' in f and o in (UNDEFINED, NULLV):
                return UNDEFINED
            fn = self.get(o, self.pname(f['name']))
            args = self.args(n, env)
            self.line = n['line']
            return self.callf(fn, args, o)
        fn = self.ev(f, env)
        args = self.args(n, env)
        self.line = n['line']
        if isinstance(fn, O) and fn.kind == 'ctor':
            if fn.p['name'].endswith('Error'):
                return self.new(fn, args, env)
            if fn.p['name'] == 'Number' and isinstance(args[0], L):
                return args[0]
            raise JsUndecided('call of %s' % fn.p['name'])
        return self.callf(fn, args)

    def args(self, n, env):
        out = []
        for a in n.get('arguments', []):
            if a['k'] == 'SpreadElement':
                v = self.ev(a['expression'], env)
                if isinstance(v, O) and v.kind == 'array':
                    out += v.p['items']
                    continue
                raise JsUndecided('spread argument')
            out.append(self.ev(a, env))
        return out

    def e_NewExpression(self, n, env):
        c = self.ev(n['expression'], env)
        a = self.args(n, env)
        self.line = n['line']
        return self.new(c, a, env)

    def e_PrefixUnaryExpression(self, n, env):
        op = n['op']
        if op in ('++', '--'):
            v = self.ev(n['operand'], env) + L(1 if op == '++' else -1)
            self.assign(n['operand'], v, env)
            return v
        v = self.ev(n['operand'], env)
        if op == '-' and isinstance(v, L):
            return v.scale(-1)
        if op == '+':
            return v if isinstance(v, L) else L(0, {self.atom('num'): 1})
        if op == '!':
            return not self.truth(v)
        if op == '~' and isinstance(v, L) and v.const() is not None:
            return L(~int(v.const()))
        raise JsUndecided('operator %s' % op)

    def e_PostfixUnaryExpression(self, n, env):
        v = self.ev(n['operand'], env)
        self.assign(n['operand'], v + L(1 if n['op'] == '++' else -1), env)
        return v

    def assign(self, t, v, env):
        if t['k'] == 'Identifier':
            e = env.find(t['escapedText'])
            if e is None:
                raise JsUndecided('assignment to %s' % t['escapedText'])
            e.v[t['escapedText']] = v
        elif t['k'] == 'PropertyAccessExpression':
            o = self.ev(t['expression'], env)
            if not isinstance(o, O) or o.kind not in ('instance', 'object', 'config'):
                raise JsUndecided('assignment to a property of %r' % (o,))
            o.p[self.pname(t['name'])] = v
            self.event('field', obj=o, name=self.pname(t['name']), value=v)
        elif t['k'] == 'ElementAccessExpression':
            o = self.ev(t['expression'], env)
            i = self.ev(t['argumentExpression'], env)
            if isinstance(o, O) and o.kind in ('heap', 'sub64') and isinstance(i, L):
                self.check_view(o)
                es = o.p.get('es', 8)
                a = i.scale(es) if o.kind == 'heap' else o.p['addr'] + i.scale(8)
                self.touch(a, L(es), 'write')
                self.event('write', dst=a, n=L(es))
                return
            raise JsUndecided('assignment to an element of %r' % (o,))
        else:
            raise JsUndecided('assignment')

    OPS = {'PlusToken': '+', 'MinusToken': '-', 'AsteriskToken': '*', 'SlashToken': '/', 'PercentToken': '%', 'LessThanToken': '<',
           'GreaterThanToken': '>', 'LessThanEqualsToken': '<=', 'GreaterThanEqualsToken': '>=', 'EqualsEqualsToken': '==',
           'EqualsEqualsEqualsToken': '===', 'ExclamationEqualsToken': '!=', 'ExclamationEqualsEqualsToken': '!==',
           'AmpersandAmpersandToken': '&&', 'BarBarToken': '||', 'QuestionQuestionToken': '??', 'GreaterThanGreaterThanToken': '>>',
           'GreaterThanGreaterThanGreaterThanToken': '>>>', 'LessThanLessThanToken': '<<', 'BarToken': '|', 'AmpersandToken': '&', 'CommaToken': ','}

    def e_BinaryExpression(self, n, env):
        t = n['operatorToken']['k']
        if t == 'EqualsToken':
            v = self.ev(n['right'], env)
            self.assign(n['left'], v, env)
            return v
        if t in ('PlusEqualsToken', 'MinusEqualsToken', 'AsteriskEqualsToken'):
            v = self.arith({'P': '+', 'M': '-', 'A': '*'}[t[0]], self.ev(n['left'], env), self.ev(n['right'], env))
            self.assign(n['left'], v, env)
            return v
        op = self.OPS.get(t)
        if op is None:
            raise JsUndecided('operator %s' % t)
        a = self.ev(n['left'], env)
        if op == '&&':
            return self.ev(n['right'], env) if self.truth(a) else a
        if op == '||':
            return a if self.truth(a) else self.ev(n['right'], env)
        if op == '??':
            return self.ev(n['right'], env) if a in (UNDEFINED, NULLV) else a
        b = self.ev(n['right'], env)
        self.line = n['line']
        if op == ',':
            return b
        if op in ('<', '>', '<=', '>=', '==', '===', '!=', '!=='):
            return self.cmp(op, a, b)
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if isinstance(a, str) or isinstance(b, str) or any(isinstance(x, O) and x.kind == 'string' for x in (a, b)):
            return O('string')
        if not isinstance(a, L) or not isinstance(b, L):
            raise JsUndecided('arithmetic on %r and %r' % (a, b))
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            if a.const() is not None:
                return b.scale(a.const())
            if b.const() is not None:
                return a.scale(b.const())
        if op == '/' and b.const():
            return a.scale(1 / b.const())
        if op in ('>>', '>>>') and b.const() is not None:
            k = 1 << int(b.const())
            if all(x.startswith(('block#',)) for x in a.t) and k <= 8:      # blocks are aligned to 8 bytes
                r = a.scale(Fr(1, k))
                if (a.c % k) == 0:
                    return r
            if k == 1 and self.integral(a):
                return a
        if op == '<<' and b.const() is not None:
            return a.scale(1 << int(b.const()))
        if op == '|' and b.const() == 0 and self.integral(a):
            return a
        if a.const() is not None and b.const() is not None and op in ('%', '&', '|'):
            x, y = int(a.const()), int(b.const())
            return L({'%': x % y if y else 0, '&': x & y, '|': x | y}[op])
        return L(0, {self.atom('expr'): 1})

    # ------------------------------------------------------------ statements
    def block(self, sts, env):
        for s in sts:
            if s['k'] == 'FunctionDeclaration':
                env.v[s['name']['escapedText']] = Fun(s, env)
        for s in sts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.line = s['line']
        k = s['k']
        if k == 'VariableStatement':
            self.decls(s['declarationList'], env, self.has_mod(s, 'ExportKeyword'))
        elif k == 'ExpressionStatement':
            self.ev(s['expression'], env)
        elif k == 'ReturnStatement':
            raise JsReturn(self.ev(s['expression'], env) if 'expression' in s else UNDEFINED)
        elif k == 'ThrowStatement':
            v = self.ev(s['expression'], env)
            raise JsThrow(v, s['line'])
        elif k == 'IfStatement':
            if self.truth(self.ev(s['expression'], env)):
                self.stmt(s['thenStatement'], env)
            elif 'elseStatement' in s:
                self.stmt(s['elseStatement'], env)
        elif k == 'Block':
            self.block(s['statements'], Env(env))
        elif k == 'TryStatement':
            try:
                self.stmt(s['tryBlock'], env)
            except JsThrow as t:
                if 'catchClause' not in s:
                    raise
                e = Env(env)
                c = s['catchClause']
                if 'variableDeclaration' in c:
                    self.bind(c['variableDeclaration']['name'], t.v, e)
                self.stmt(c['block'], e)
            finally:
                if 'finallyBlock' in s:
                    self.stmt(s['finallyBlock'], env)
        elif k == 'ClassDeclaration':
            c = Cls(s, env)
            env.v[s['name']['escapedText']] = c
            if self.has_mod(s, 'ExportKeyword'):
                self.exports[s['name']['escapedText']] = c
        elif k == 'FunctionDeclaration':
            f = Fun(s, env)
            env.v[s['name']['escapedText']] = f
            if self.has_mod(s, 'ExportKeyword'):
                self.exports[s['name']['escapedText']] = f
        elif k == 'ImportDeclaration':
            pass
        elif k == 'ExportAssignment':
            self.exports['default'] = self.ev(s['expression'], env)
        elif k == 'ExportDeclaration':
            for e in (s.get('exportClause') or {}).get('elements', []):
                nm = self.pname(e.get('propertyName') or e['name'])
                x = env.find(nm)
                if x:
                    self.exports[self.pname(e['name'])] = x.v[nm]
        elif k in ('InterfaceDeclaration', 'TypeAliasDeclaration', 'EmptyStatement'):
            pass
        elif k == 'EnumDeclaration':
            o = O('object')
            cur = L(0)
            for m in s['members']:
                if 'initializer' in m:
                    cur = self.ev(m['initializer'], env)
                o.p[self.pname(m['name'])] = cur
                if isinstance(cur, L):
                    cur = cur + L(1)
            env.v[s['name']['escapedText']] = o
        elif k in ('WhileStatement', 'ForStatement', 'DoStatement'):
            self.loop(s, env)
        elif k == 'BreakStatement':
            raise JsBreak()
        elif k == 'ContinueStatement':
            raise JsContinue()
        else:
            raise JsUndecided('statement %s at line %d' % (k, s['line']))

    def loop(self, s, env):
        e = Env(env)
        if s['k'] == 'ForStatement' and 'initializer' in s:
            i = s['initializer']
            if i['k'] == 'VariableDeclarationList':
                self.decls(i, e, False)
            else:
                self.ev(i, e)
        cond = s.get('condition') or s.get('expression')
        n = 0
        while True:
            if s['k'] != 'DoStatement' or n:
                if cond is not None and not self.truth(self.ev(cond, e)):
                    break
            n += 1
            if n > self.MAXIT:
                raise JsUndecided('loop at line %d' % s['line'])
            try:
                self.stmt(s['statement'], e)
            except JsBreak:
                break
            except JsContinue:
                pass
            if 'incrementor' in s:
                self.ev(s['incrementor'], e)

    def decls(self, dl, env, exp):
        for d in dl['declarations']:
            v = self.ev(d['initializer'], env) if 'initializer' in d else UNDEFINED
            self.bind(d['name'], v, env)
            if exp and d['name']['k'] == 'Identifier':
                self.exports[d['name']['escapedText']] = v

    def load(self):
        for s in self.ast['statements']:
            if s['k'] == 'ImportDeclaration':
                c = s.get('importClause') or {}
                if 'name' in c:
                    self.top.v[c['name']['escapedText']] = self.top.v['loadWASM']
        self.block(self.ast['statements'], self.top)


def paths(ast, entry, limit=400):
    """every path of entry(interp) -> result; yields (interp, ('ok', value) | ('throw', value, line) | ('undecided', why))"""
    dec = []
    n = 0
    while True:
        it = Interp(ast, dec)
        try:
            it.load()
            r = ('ok', entry(it))
        except JsThrow as t:
            r = ('throw', t.v, t.line)
        except JsUndecided as u:
            r = ('undecided', str(u))
        yield it, r
        n += 1
        dec = it.dec[:it.used]
        while dec and dec[-1][0] + 1 >= dec[-1][1]:
            dec.pop()
        if not dec or n >= limit:
            return
        c, k = dec[-1]
        dec[-1] = (c + 1, k)
