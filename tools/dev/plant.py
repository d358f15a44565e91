#!/usr/bin/env python3
"""Development tool: plants the bugs of bugs.py (not used by any check).

plant.py DIR [id...]  writes DIR/<id>/{patch.diff,demo.sh,demo.py,lib.py,probe.rs,meta.json}
after confirming in a scratch copy of /repo that the patch builds, passes the
tests, and that the demonstration passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
import bugs2, bugs3, bugs4, bugs5, bugs6, bugs7
COPY = '/tmp/plant/repo'
ENV = dict(os.environ, PROBE_TARGET='/tmp/plant/probe')


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    env = dict(os.environ, CARGO_TARGET_DIR='/tmp/plant/target', CARGO_NET_OFFLINE='true')
    r = subprocess.run('timeout 200 cargo test --workspace --no-fail-fast --offline', shell=True, cwd=COPY, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = sum(int(x) for x in re.findall(r'(\d+) passed', r.stdout))
    bad = sum(int(x) for x in re.findall(r'(\d+) failed', r.stdout))
    return ok, bad, r.stdout


def demo(d):
    return subprocess.run(['bash', d + '/demo.sh'], cwd=COPY, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=280)


def main():
    out, ids = sys.argv[1], sys.argv[2:]
    os.makedirs('/tmp/plant', exist_ok=True)
    if not os.path.exists(COPY):
        subprocess.run(['git', 'clone', '-q', '/repo', COPY], check=True)
        shutil.copy('/repo/Cargo.lock', COPY + '/Cargo.lock')
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        if not ids and os.path.exists(out + '/' + b['id']):
            continue
        subprocess.run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', shell=True, cwd=COPY, check=True)
        d = '/tmp/plant/out/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(HERE + '/demo_lib.py', d + '/lib.py')
        shutil.copy(HERE + '/probe.rs', d + '/probe.rs')
        shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
        open(d + '/demo.py', 'w').write('import math\nfrom lib import *\n\n' + b['demo'].strip('\n') + '\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = demo(d)
        if r0.returncode != 0:
            print(b['id'], 'DEMO FAILS UNCHANGED', r0.stdout[-1500:])
            continue
        bad = False
        for f, old, new in b['edits']:
            p = COPY + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), repr(old[:60]))
                bad = True
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], COPY).stdout)
        ok, n, log = tests()
        if n or ok < 38:
            print(b['id'], 'TESTS', ok, n, log[-1200:] if ok < 38 and not n else re.findall(r'test .*FAILED', log))
            continue
        r1 = demo(d)
        if r1.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH PATCH')
            continue
        print(b['id'], 'ok:', r1.stdout.strip().splitlines()[-1][:160])
        shutil.rmtree(out + '/' + b['id'], ignore_errors=True)
        shutil.copytree(d, out + '/' + b['id'])
    subprocess.run(['git', 'checkout', '-q', '-f', '.'], cwd=COPY)


if __name__ == "__main__":
    main()
