"""P19: texts written into caller buffers."""
import time
from sa.harness import *
from sa.engine import where
from sa.loops import LoopW
from sa import build

WORDS = {'ERR_MEMORY_ALLOCATION_FAILED': 'emory', 'ERR_LEVEL_OUT_OF_BOUNDS': 'level', 'ERR_Q_OUT_OF_BOUNDS': 'q ',
         'ERR_EXCESS_THRESHOLD_IS_NAN': 'excess', 'ERR_ANOMALY_THRESHOLD_IS_NAN': 'anomaly', 'ERR_DATA_IS_NAN': 'data'}
LONG = 256


def engine(ctx):
    E = Engine(ctx.m, models={}, max_states=200000)
    E.force_step = True
    E.MAXU = 400
    E.MAXLIVE = 2000
    E.deadline = min(x for x in (E.deadline, time.time() + 15) if x)
    return E


def buf(E, st, lo=0):
    size = iatom(64, fresh_atom('size', lo, 1 << 60))
    o = E.new_obj(st, 'buffer', size, 'param', init='lazy', elem=(1, 'i8'))
    return size, o


def at(E, s, o, j, f=None, upto=None):
    """value of byte j of the buffer: I, 'old' (never written) or None (unknown)"""
    x = s.mem[o.id]
    f = f or s.facts
    n = len(x.writes) if upto is None else upto
    for i in range(n - 1, -1, -1):
        woff, val = x.writes[i]

        def maybe():
            """written or not, as far as the facts tell: fine when both give the same byte"""
            v = at(E, s, o, j, f, i)
            return val if isinstance(v, I) and isinstance(val, I) and v.const() is not None and val.const() is not None and \
                (v.const() - val.const()) % 256 == 0 else None
        if isinstance(woff, I):
            t, c = woff.lin()
            c = c - (1 << 64) if c >= 1 << 63 else c
            if f.i_le(t, c - j) and f.i_le({a: -v for a, v in t.items()}, j - c):
                return val
            if f.i_le(t, c - j + 1) or f.i_le({a: -v for a, v in t.items()}, j - c + 1) or f.i_ne(t, c - j):
                continue
            return maybe()
        if isinstance(woff, LoopW):
            info = s.loops.get(woff.uid)
            if info is None or info.get('count') is None or len(info['leaves']) != 1:
                return None
            lw = info['leaves'][0]['state'].mem[o.id].writes
            if not lw or lw[-1][0] == woff or not isinstance(lw[-1][0], I):
                return None
            off, val = lw[-1]
            t, c = off.lin()
            k = info['k'].id
            if t.get(k) != 1 or set(t) - {k}:
                return None
            kk = j - c                       # iteration writing byte j
            ct, cc = info['count'].lin()
            if kk < 0 or f.i_le(ct, cc - kk):
                continue
            if f.i_le({a: -v for a, v in ct.items()}, -cc + kk + 1):
                return val
            return maybe()
        else:
            return None
    return 'old'


def pinned(f, size):
    """the constant the facts force on size, or None"""
    t, c = size.lin()
    pts = sample(f, (size,), n=1)
    if not pts:
        return None, None
    v = pts[0].I(size)
    if f.i_le(t, c - v) and f.i_le({a: -x for a, x in t.items()}, v - c):
        return v, v
    return None, v


class Open(str):
    """a text followed by a byte that is not written"""


class Garbled(str):
    """a text with a byte that is no character"""


def text_of(E, s, o, n, f):
    """the first bytes as a string up to NUL, or None"""
    out = ''
    for j in range(n):
        v = at(E, s, o, j, f)
        if v == 'old' and s.exact:
            return Open(out)
        if not isinstance(v, I) or v.const() is None:
            return None
        if v.const() & 255 == 0:
            return out
        out += chr(v.const() & 255)
        if not 32 <= v.const() & 255 < 127 and chr(v.const() & 255) not in '\n\t' and v.const() & 255 < 128:
            return Garbled(out) if s.exact else None
    return None


def run_text(ctx, b, fname, pre, label):
    """returns the complete text written by the call into a long buffer (None: nothing written)"""
    E = engine(ctx)
    st = State()
    size, o = buf(E, st)
    try:
        res = E.call(st, fname, pre + [Ptr(o.id, iconst(64, 0)), size])
    except Undecided as ex:
        b.und('copied', fname, 'analysis stopped: %s (%s)' % (ex, label))
        res = []
    b.cov['partitions'] += len(res)
    full = None
    # the complete text: the partition with room to spare
    for s, _ in res:
        t = None
        g = s.facts.copy()
        tt, cc = size.lin()
        if not g.i_infeasible({a: -x for a, x in tt.items()}, LONG - cc):
            g.i_add_le({a: -x for a, x in tt.items()}, LONG - cc)
            t = text_of(E, s, o, LONG, g)
        if t is not None:
            full = t
    for s, _ in res:
        v, some = pinned(s.facts, size)
        w = '%s [size %s]' % (fname, v if v is not None else 'any' if some is None else 'such as %d' % some)
        yield E, s, o, size, v, w, full
    for kind in ('bounds', 'null', 'valid-pointer', 'initialised', 'array-index'):
        for ob in E.obl.values():
            if ob['kind'] != kind:
                continue
            wi = where(ob['inst'])
            if ob['status'] == 'ok':
                b.ok('bounded', wi, kind)
            elif ob['status'] == 'fail':
                b.bad('bounded', wi, '%s (%s); partition: %s' % (ob['msg'], label, '; '.join(ob['facts'] or [])))
            else:
                b.und('bounded', wi, ob['msg'])
    # no buffer
    E2 = engine(ctx)
    st2 = State()
    size2 = iatom(64, fresh_atom('size', 0, 1 << 60))
    E2.call(st2, fname, pre + [NULL, size2])
    for ob in E2.obl.values():
        if ob['kind'] == 'null' and ob['status'] == 'fail':
            b.bad('no-buffer', where(ob['inst']), '%s (%s)' % (ob['msg'], label))
    b.ok('no-buffer', fname, label)
    b.engine(E)


def contents(b, E, s, o, size, v, w, full, label):
    """bounded copy of `full`, NUL-terminated"""
    if isinstance(full, Garbled):
        b.bad('copied', w.split(' [')[0], 'in a long buffer the text "%s" is followed by the byte %d (%s)' % (full[:-1], ord(full[-1]), label))
        return
    if isinstance(full, Open):
        b.bad('terminated', w.split(' [')[0], 'in a long buffer the text "%s" is followed by a byte that is never written: not terminated there (%s)' % (full, label))
        return
    if v == 0:
        wr = s.mem[o.id].writes
        b.add('bounded', 'violation' if wr and s.exact else 'ok', w, 'bytes are written in an empty buffer' if wr else 'nothing written')
        return
    n = min(v - 1, len(full)) if v is not None else len(full)
    for j in range(n + 1):
        want = ord(full[j]) if j < n else 0
        x = at(E, s, o, j)
        if isinstance(x, I) and x.const() is not None:
            if x.const() & 255 == want:
                b.ok('copied' if j < n else 'terminated', w)
            else:
                b.bad('copied' if j < n else 'terminated', w, 'byte %d is %d, expected %d (%s); partition: %s' % (j, x.const() & 255, want, label, part(s)))
                return
        elif x == 'old' and s.exact:
            b.bad('copied' if j < n else 'terminated', w, 'byte %d is not written%s (%s); partition: %s' % (
                j, '' if j < n else ', so the text is not terminated', label, part(s)))
            return
        else:
            b.und('copied' if j < n else 'terminated', w, 'byte %d' % j)
            return


def p19(ctx, b, tier):
    ctx.need('libspot_error', 'libspot_version', 'libspot_license')
    b.rule('bounded', 'no byte outside the given buffer is written, whatever its size (zero included)')
    b.rule('copied', 'the buffer receives the text, cut to fit')
    b.rule('terminated', 'a text is always terminated inside the buffer')
    b.rule('no-buffer', 'without buffer nothing is written')
    b.rule('message', 'every error code has its own message')
    b.rule('unknown', 'an unknown code reads no message outside the table')
    b.rule('version', 'the version text is the version of the build')
    msgs = {}
    en = ctx.en
    for name in sorted(WORDS, key=lambda n: en.get(n, 0)):
        if name not in en:
            b.und('message', name, 'no such code')
            continue
        full = None
        parts = []
        for E, s, o, size, v, w, full in run_text(ctx, b, 'libspot_error', [iconst(32, en[name])], name):
            parts.append((E, s, o, size, v, w))
        if full is None or not full:
            if all(not s.mem[o.id].writes for E, s, o, size, v, w in parts) and all(s.exact for _, s, *_ in parts):
                b.bad('message', 'libspot_error(%s)' % name, 'no message is written for code %d: the buffer is left as it was' % en[name], key='message:' + name)
            elif full is None:
                b.und('message', 'libspot_error(%s)' % name, 'text not recognised')
            else:
                b.bad('message', 'libspot_error(%s)' % name, 'the text written for code %d is empty%s' % (en[name], ': its first byte is never written' if isinstance(full, Open) else ''))
            continue
        for E, s, o, size, v, w in parts:
            contents(b, E, s, o, size, v, w, full, name)
        msgs[name] = full
        if WORDS[name] not in full:
            b.bad('message', 'libspot_error(%s)' % name, 'the message of code %d is "%s"' % (en[name], full))
        else:
            b.ok('message', 'libspot_error(%s)' % name, full)
    for a in msgs:
        for c in msgs:
            if a < c and msgs[a] == msgs[c]:
                b.bad('message', 'libspot_error', '%s and %s have the same message' % (a, c))
    # unknown codes
    E = engine(ctx)
    st = State()
    size, o = buf(E, st)
    err = iatom(32, fresh_atom('err', 0, (1 << 32) - 1))
    vals = sorted(v for k, v in en.items() if k.startswith('ERR_'))
    for lo, hi in ((0, vals[0] - 1), (vals[-1] + 1, (1 << 32) - 1)):
        s0 = st.copy()
        t, c = err.lin()
        s0.facts.i_add_le(t, -hi)
        s0.facts.i_add_le({a: -x for a, x in t.items()}, lo)
        res = E.call(s0, 'libspot_error', [err, Ptr(o.id, iconst(64, 0)), size])
        b.cov['partitions'] += len(res)
        bad = [ob for ob in E.obl.values() if ob['status'] == 'fail' and ob['kind'] in ('bounds', 'array-index')]
        for ob in bad:
            b.bad('unknown', where(ob['inst']), '%s for codes %d..%d' % (ob['msg'], lo, hi))
        if not bad:
            b.ok('unknown', 'libspot_error', 'codes %d..%d' % (lo, hi))
    b.engine(E)
    for f, want in (('libspot_version', build.version()), ('libspot_license', None)):
        parts = []
        full = None
        for E, s, o, size, v, w, full in run_text(ctx, b, f, [], f):
            parts.append((E, s, o, size, v, w))
        if full is None:
            b.und('version', f, 'text not recognised')
            continue
        if isinstance(full, Open) and not full:
            b.bad('version', f, 'in a long buffer the first byte of the text is never written')
            continue
        for E, s, o, size, v, w in parts:
            contents(b, E, s, o, size, v, w, full, f)
        if want is not None and full != want:
            b.bad('version', f, 'text "%s", the build says "%s"' % (full, want))
        elif not full:
            b.bad('version', f, 'empty text')
        else:
            b.ok('version', f, full)
    b.cov['texts'] = msgs
