#!/usr/bin/env python3
"""Development tool: judges exotic missions of every kind on the tree as it is.

corpus.py N SEED [kind...]: prints the cases that are not as specified."""
import json, os, random, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import vt, gen, judge, check, docs
n, seed = int(sys.argv[1]), sys.argv[2]
kinds = sys.argv[3:] or ['state:C%02d' % i for i in (1, 3, 5, 6, 7, 8, 9, 11, 13, 14, 15, 16, 17, 18, 20)] + ['sim', 'step', 'expand', 'prefix', 'same']
vt.build()
ms = [gen.exotic(random.Random('%s %d' % (seed, i))) for i in range(n)]
for k in kinds:
    cases = []
    for i, m in enumerate(ms):
        c = {'id': i, 'kind': k, 'mission': m}
        if k == 'step':
            c['n'] = 1 + i % 3
        if k == 'same':
            c['texts'] = [json.dumps(m), docs.text(docs.tree(m), (',', ':'), random.Random(i).shuffle)]
        cases.append(c)
    bad = check.judge_cases(cases, log=True)
    for i, w in list(bad.items())[:8]:
        print('  ', i, w)
    if bad:
        json.dump({'property': k, 'cases': [c for c in cases if c['id'] in bad]}, open('/tmp/corpus-%s.json' % k.replace(':', '-'), 'w'))
print({k: v for k, v in judge.STATS.items() if k not in ('tlc',)})
vt.cleanup()
