#!/usr/bin/env python3
"""Development tool: single-token changes of /repo's sources (outside tests).
mutants.py OUT [-j N]: writes OUT/<n>/{patch.diff,meta.json} for those which build
and pass the tests; matrix.py can then be run on OUT with the checks of the file."""
import json, os, re, subprocess, sys, threading, queue, hashlib, random
OUT = sys.argv[1]
J = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 3
S = '/repo/sim/src/'
CHECKS = {'phase.rs': 'C04', 'lib.rs': 'C01', 'vehicle.rs': 'C08', 'planet.rs': 'C14', 'steering.rs': 'C07', 'state.rs': 'C18',
          'transformations.rs': 'C16', 'atmosphere/mod.rs': 'C15', 'atmosphere/standard_atmosphere_1962.rs': 'C15',
          'integration/runge_kutta.rs': 'C19', 'integration/mod.rs': 'C19', 'utils/tables/mod.rs': 'C11',
          'utils/tables/linear_interpolation.rs': 'C11', 'utils/tables/deserialization.rs': 'C10', 'utils/constants.rs': 'C14',
          'config.rs': 'C12'}
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '),
       (r' >= ', ' > '), (r' < ', ' > '), (r' > ', ' < '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+= ', ' -= '), (r'\.sin\(\)', '.cos()'), (r'\.cos\(\)', '.sin()'), (r'\.x\b', '.y'), (r'\.y\b', '.z'), (r'\.z\b', '.x'),
       (r'\[0\]', '[1]'), (r'\[1\]', '[2]'), (r'\[2\]', '[0]'), (r'(?<=[( =])-(?=[a-z])', ''), (r'\.abs\(\)', ''), (r'\.max\(0\.\)', ''),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.transpose\(\)', ''), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
       (r'!(?=[a-z])', ''), (r'\.powi\(2\)', '.powi(3)'), (r'\.sqrt\(\)', ''), (r'\b(\d+\.\d*(?:e-?\d+)?)(?=[^\w.])', 'NUM'),
       (r'(?<![\w.])(\d+)(?=[^\w.])', 'INT'), (r'equatorial_radius', 'polar_radius'), (r'polar_radius', 'equatorial_radius'),
       (r'#\[serde\(deny_unknown_fields\)\]', ''), (r'#\[serde\(default\)\]', ''), (r'#\[serde\(rename[^\]]*\)\]', ''),
       (r'Some\(config\)', 'Some(config) if false'), (r'^\s+self\.[^;=]*=[^=][^;]*;$', 'DROP'), (r'^\s+phase\.[^;]*;$', 'DROP'),
       (r'^\s+state\.[^;]*=[^=][^;]*;$', 'DROP'), (r'^\s+validate[^;]*;$', 'DROP'), (r'^\s+[a-z_.]+\([^;]*\)\??;$', 'DROP')]


def mutants():
    for f in sorted(CHECKS):
        p = S + f
        if not os.path.exists(p):
            continue
        text = open(p).read()
        end = text.find('#[cfg(test)]')
        end = len(text) if end < 0 else end
        seen = set()
        pos = 0
        for line in text.splitlines(True):
            a, pos = pos, pos + len(line)
            if a >= end or line.strip().startswith('//') or line.strip().startswith('use ') or 'derive' in line:
                continue
            code = line.split('//')[0].rstrip('\n')
            for rx, to in OPS:
                for m in re.finditer(rx, code):
                    t = to
                    if to == 'NUM':
                        x = m.group(1)
                        if float(x) == 0: t = '1.'
                        else:
                            t = repr(float(x) * 1.001 if rng_bit(f, a, m.start()) else float(x) * 2)
                    elif to == 'INT':
                        t = str(int(m.group(1)) + 1)
                    elif to == 'DROP':
                        t = ''
                    new = text[:a + m.start()] + t + text[a + m.end():]
                    h = hashlib.md5((f + new).encode()).hexdigest()
                    if h in seen:
                        continue
                    seen.add(h)
                    yield f, text[:a].count('\n') + 1, code.strip(), (code[:m.start()] + t + code[m.end():]).strip(), new


def rng_bit(*a):
    return int(hashlib.md5(repr(a).encode()).hexdigest(), 16) % 2


q = queue.Queue()
ms = list(mutants())
print(len(ms), 'mutants', flush=True)
if '--list' in sys.argv:
    for f, n, o, c, _ in ms: print(f, n, o, '=>', c)
    sys.exit()
for i, m in enumerate(ms):
    few = m[0].endswith('1962.rs') or m[0] == 'planet.rs'
    if not few or rng_bit(m[2], m[3], 1) and rng_bit(m[2], m[3], 2):      # a quarter of the constants
        q.put((i, m))
print(q.qsize(), 'of them', flush=True)
os.makedirs(OUT, exist_ok=True)


def worker(k):
    base = '/tmp/mut/%d' % k
    os.makedirs(base, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', base + '/repo/'], check=True)
    env = dict(os.environ, CARGO_TARGET_DIR=base + '/target', CARGO_NET_OFFLINE='true', CARGO_BUILD_JOBS='2')
    while True:
        try:
            i, (f, n, old, new, text) = q.get_nowait()
        except queue.Empty:
            return
        p = base + '/repo/sim/src/' + f
        keep = open(p).read()
        open(p, 'w').write(text)
        r = subprocess.run('timeout 120 cargo test --workspace --no-fail-fast --offline', shell=True, cwd=base + '/repo', env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = sum(int(x) for x in re.findall(r'(\d+) passed', r.stdout))
        bad = sum(int(x) for x in re.findall(r'(\d+) failed', r.stdout))
        if ok >= 38 and not bad and r.returncode == 0:
            d = '%s/m%03d' % (OUT, i)
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(['git', 'diff'], cwd=base + '/repo', stdout=subprocess.PIPE, text=True).stdout
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': CHECKS[f], 'needs': '%s:%d' % (f, n), 'what_it_breaks': old + '  =>  ' + new}, open(d + '/meta.json', 'w'))
        open(p, 'w').write(keep)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(J)]
for t in ts: t.start()
for t in ts: t.join()
print(len(os.listdir(OUT)), 'survive the tests')
