#!/usr/bin/env python3
"""Records the shape of the unchanged tree (function list, loops per function, accepted count) in contracts/expected.json."""
import sys, os, json, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
p = os.path.join(check.HERE, 'contracts', 'expected.json')
json.dump({'shape': {}, 'bodiless': [], 'missing': [], 'unsupported': [], 'loops_without_invariant': [], 'min_verified': 1}, open(p, 'w'))
open(os.path.join(check.HERE, 'contracts', '95_binders.vc'), 'w').write('')
v = check.verify(tempfile.mkdtemp())
r = v['report']
json.dump({'shape': r['shape'], 'bodiless': sorted(set(r['functions']) - set(r['shape'])), 'missing': r['missing'], 'unsupported': r['unsupported'], 'loops_without_invariant': r['loops_without_invariant'],
           'min_verified': v['stats']['verus_verified']}, open(p, 'w'), indent=0, sort_keys=True)
open(os.path.join(check.HERE, 'contracts', '95_binders.vc'), 'w').write('@@ written by tools/mkexpected.py: the names each function binds; when one is renamed, the ghost text follows\n' + ''.join(f'@binders {f} | ' + ' '.join(b) + '\n' for f, b in sorted(r['binders'].items()) if b))
print(v['status'], v['stats'], {k: len(r[k]) for k in r if isinstance(r[k], list)})
for f, es in v['failed'].items(): print('FAILED', f, [e['obligation'] for e in es])
print(v['limited'])
print('\n'.join(v['reasons'])[:3000])
print('missing', r['missing'], 'uncontracted', len(r['uncontracted']))
