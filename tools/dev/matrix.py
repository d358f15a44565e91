#!/usr/bin/env python3
"""Development tool: runs checks against the planted bugs, in copies.

matrix.py LOG [-p C01,C02,..|all|own] [-j N] [-s seed] [-t tier] [bug...]
Uses mount namespaces: each worker has its own copy of /verif and a patched
copy of /repo mounted in its place.  One line per run is added to LOG."""
import json, os, queue, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
a = sys.argv[1:]
log = a.pop(0)
props, jobs, seed, tier, seeded = 'own', 3, '1', 'quick', VERIF + '/seeded'
bugs = []
while a:
    x = a.pop(0)
    if x == '-p': props = a.pop(0)
    elif x == '-j': jobs = int(a.pop(0))
    elif x == '-s': seed = a.pop(0)
    elif x == '-t': tier = a.pop(0)
    elif x == '-d': seeded = a.pop(0)
    else: bugs.append(x)
bugs = bugs or sorted(os.listdir(seeded))
q = queue.Queue()
for b in bugs:
    own = json.load(open('%s/%s/meta.json' % (seeded, b)))['property']
    for p in ([own] if props == 'own' else ['C%02d' % i for i in range(1, 23)] if props == 'all' else
              ['C%02d' % i for i in range(1, 23) if 'C%02d' % i != own] if props == 'others' else props.split(',')):
        q.put((b, own, p))
lock = threading.Lock()


def worker(n):
    base = '/tmp/matrix/%d-%d' % (os.getpid(), n)
    os.makedirs(base, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'evidence/*', VERIF + '/', base + '/verif/'], check=True)
    last = None
    while True:
        try:
            b, own, p = q.get_nowait()
        except queue.Empty:
            return
        if last != b:
            subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', base + '/repo/'], check=True)
            subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (seeded, b)], cwd=base + '/repo', check=True)
            last = b
        t = time.time()
        r = subprocess.run(['unshare', '-m', 'bash', '-c',
                            'mount --bind %s/repo /repo && cd %s/verif && exec timeout 1500 python3 tools/check.py %s' % (base, base, p)],
                           env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        found = r.returncode == 1 and ('VIOLATION property=%s ' % p) in r.stdout
        what = [l for l in r.stdout.splitlines() if 'not as specified' in l or 'VIOLATION' in l or 'rror' in l]
        with lock:
            with open(log, 'a') as f:
                f.write(json.dumps({'bug': b, 'own': own, 'check': p, 'found': found, 'rc': r.returncode,
                                    's': round(time.time() - t, 1), 'what': ' | '.join(what)[:600]}) + '\n')


ts = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]
for t in ts: t.start()
for t in ts: t.join()
for i in range(jobs):
    shutil.rmtree('/tmp/matrix/%d-%d' % (os.getpid(), i), ignore_errors=True)
