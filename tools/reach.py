#!/usr/bin/env python3
"""reach.py: functions of /repo that no proof unit executes, after every check has run (reads the evidence files)"""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc.frontend import Program, sources
seen = set()
for f in glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence', 'C*.json')):
    c = json.load(open(f))['coverage']
    seen |= set(c['functions_under_contract']) | set(c['functions_inlined'])
apps = tuple('app/' + x for x in os.listdir('/repo/app') if x.endswith('.cpp') and x != 'telemetry.cpp')
P = Program(sources(('lib',) + apps))
n, miss = 0, []
for name, fs in sorted(P.funcs.items()):
    for f in fs:
        if not (f.get('_src') or '').startswith('/repo') or f.get('isImplicit') or f.get('explicitlyDefaulted'):
            continue
        q = '%s::%s' % (f['_cls'], name) if f.get('_cls') else name
        n += 1
        if q not in seen:
            miss.append((f['_src'][6:], q))
miss = sorted(set(miss))
print('%d functions, %d not executed by a proof' % (n, len(miss)))
for m in miss:
    print('  %s  %s' % m)
