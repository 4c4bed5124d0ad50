#!/usr/bin/env python3
"""Run the static check of one property:  check.py P01 [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
VT = '/opt/veriftools/pyvenv/bin/python3'      # interpreter with numpy and mpmath


def registry():
    from checks import registry
    return registry.REG


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:') and 'property=%s ' % pid in l:
                key = l.split('key=', 1)[1].split(' ', 1)[0] if 'key=' in l else None
                out.append((key, l.split(' ', 3)[3] if len(l.split(' ', 3)) > 3 else l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from sa.harness import Book, Ctx, Missing
    from sa.engine import Undecided, Engine
    Engine.deadline = t0 + (420 if a.tier == 'quick' else 780)
    from sa import valuation
    valuation.LATE[0] = Engine.deadline
    from sa.build import BuildError
    ent = registry()[a.pid]
    if ent.get('vt') and not os.environ.get('LIBSPOT_VT'):
        try:
            import numpy, mpmath  # noqa: F401
        except ImportError:
            os.environ['LIBSPOT_VT'] = '1'
            os.execv(VT, [VT] + sys.argv)
    b = Book(a.pid)
    fatal = None
    try:
        ctx = Ctx() if ent.get('core', True) else None
        ent['run'](ctx, b, a.tier)
    except Missing as ex:
        fatal = 'missing anchor: %s' % ex
    except BuildError as ex:
        fatal = 'the sources do not compile: %s' % ex
    except Undecided as ex:
        b.und('analysis', 'engine', 'analysis stopped: %s' % ex)
        if a.v:
            traceback.print_exc()
    except Exception as ex:      # a defect of the analysis is not a verdict about the code
        b.und('analysis', 'engine', 'internal error: %r' % (ex,))
        traceback.print_exc()
    viol = [i for i in b.items if i['status'] == 'violation']
    kn = known(a.pid)
    out_kn, rest = [], []
    for v in viol:
        m = [k for k in kn if k[0] == v['key']]
        (out_kn if m else rest).append((v, m))
    nok, nund = b.count('ok'), b.count('undecided')
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': ent['level'],
        'coverage': {
            'explanation': ent.get('explanation', 'static analysis of the compiled-to-IR sources of the working tree'),
            'rules': [{'id': r, 'text': t, 'obligations': sum(1 for i in b.items if i['rule'] == r),
                       'discharged': sum(1 for i in b.items if i['rule'] == r and i['status'] == 'ok')} for r, t in b.rules],
            'obligations': len(b.items), 'discharged': nok,
            'undecided': nund, 'undecided_list': [dict(rule=i['rule'], where=i['where'], detail=i['detail'][:300]) for i in b.items if i['status'] == 'undecided'][:40],
            'known_findings': len(out_kn),
            'functions_analysed': sorted(b.cov['functions']), 'partitions': b.cov['partitions'], 'abstract_states': b.cov['states'],
            'loops': b.cov['loops'],
            'checker_cmd': 'python3 /verif/bin/check.py %s --tier %s' % (a.pid, a.tier),
            'trusted_base': ['clang/opt 18 (front end, SROA)', 'sa/ (abstract interpreter)'] + ent.get('trusted', []),
        },
        'assumptions': ent.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': [dict(rule=v['rule'], where=v['where'], detail=v['detail'][:600]) for v, _ in rest][:40],
    }
    for k, x in (b.cov.items()):
        if k not in ('functions', 'partitions', 'states', 'loops'):
            ev['coverage'][k] = sorted(x) if isinstance(x, set) else x
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (a.pid, len(b.items), nok, nund, len(rest), time.time() - t0))
    if a.v:
        for i in b.items:
            if i['status'] != 'ok':
                print('  ', i['status'], i['rule'], i['where'], i['detail'][:400])
    seen = set()
    for v, m in out_kn:
        if m[0][0] not in seen:
            seen.add(m[0][0])
            print('KNOWN-FINDING: property=%s %s' % (a.pid, m[0][1]))
    if rest:
        rp = os.path.join(VERIF, 'evidence', a.pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v, _ in rest:
                f.write('[%s] %s\n    %s\n' % (v['rule'], v['where'], v['detail']))
        for v, _ in rest[:12]:
            print('  violation [%s] %s: %s' % (v['rule'], v['where'], v['detail'][:500]))
        print('VIOLATION property=%s replay=%s' % (a.pid, rp))
        return 1
    if fatal:
        print('no answer: ' + fatal)
        return 2
    if nok < ent.get('min', 1):
        print('no answer: only %d obligations decided' % nok)
        return 2
    if nund:
        print('%d obligations could not be decided (listed in the evidence)' % nund)
    return 0


if __name__ == '__main__':
    sys.exit(main())
