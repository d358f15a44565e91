#!/usr/bin/env python3
"""Development tool: writes the missions for MCWorld to spec/worlds.ndjson.

worlds.py N [drop]: N missions of each kind and seed.  "drop" leaves out those
of which MCWorld's properties do not hold: look at them first.  They have to be
beyond what is specified (masses below zero, numbers that overflow)."""
import json, os, re, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import vt, judge, props, random
vt.build()
n = int(sys.argv[1])
ms = []
for seed in (11, 12, 13):
    cs = props.Cases('C03', seed)
    props.chains(cs, n)
    props.chains(cs, n, tag='burning', burning=True)
    props.random_missions(cs, n, ['sim'])
    for i in range(n):
        cs.put('sim', mission=props.gen.exotic(cs.rng('exotic', i)))
    ms += [c['mission'] for c in cs]
obs = judge.run(dict(enumerate(ms)), budget=14000)
ms = [m for i, m in enumerate(ms) if judge.outcome(obs[i]) in ('ok', 'panic') and 'NaN' not in obs[i]['runs'][0]['out']
      and 'e2' not in json.dumps(obs[i]['runs'][0].get('state'))]
random.Random(1).shuffle(ms)
rows = [{'mission': vt.conv_mission(m)} for m in ms]
while True:
    r = judge.spec('MCWorld', rows)
    print(len(rows), r['rc'], r['states'], r['wall'], flush=True)
    if r['rc'] == 0:
        break
    print([l for l in r['out'].splitlines() if 'violated' in l])
    i = int(re.findall(r'm \|-> (\d+)', r['out'])[-1])
    print(json.dumps(ms[i - 1]))
    if 'drop' not in sys.argv[2:]:
        break
    del ms[i - 1], rows[i - 1]
with open(os.path.join(vt.SPEC, 'worlds.ndjson'), 'w') as f:
    for row in rows:
        f.write(json.dumps(row) + '\n')
vt.cleanup()
