#!/usr/bin/env python3
"""Decides one property: check.py Cxx [--replay file].  See DESIGN.md.

Exit status 0: the property held on everything explored; 1: it did not (a line
VIOLATION property=<id> replay=<path> is printed); 2: no answer."""
import json, os, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
from vt import VERIF, ToolError
import judge, props

EVIDENCE = os.path.join(VERIF, 'evidence')


def judge_kind(kind, cases):
    if kind.startswith('state:'):
        return judge.judge_state(kind[6:], cases)
    return getattr(judge, 'judge_' + {'same': 'same'}.get(kind, kind))(cases)


def judge_cases(cases, log=False):
    bad = {}
    kinds = []
    for c in cases:
        if c['kind'] not in kinds:
            kinds.append(c['kind'])
    for k in kinds:
        t = time.time()
        part = [c for c in cases if c['kind'] == k]
        b = judge_kind(k, part)
        bad.update(b)
        if log:
            print('%-10s %6d cases %4d bad %6.1f s' % (k, len(part), len(b), time.time() - t), flush=True)
    return bad


def confirm(cases, bad):
    """Bad cases, judged again one by one (the first few)"""
    by = {c['id']: c for c in cases}
    for i in list(bad)[:6]:
        c = by[i]
        b = judge_cases([c])
        if i in b:
            return [c], b[i]
    # only together with others?
    kinds = {by[i]['kind'] for i in bad}
    batch = [c for c in cases if c['kind'] in kinds]
    b = judge_cases(batch)
    if b:
        i = next(iter(b))
        return batch, b[i]
    return None, None


def short(c):
    t = json.dumps({k: v for k, v in c.items() if k != 'id'})
    return json.loads(t) if len(t) < 3000 else {'kind': c['kind'], 'text': t[:3000] + '...'}


def main():
    prop = sys.argv[1]
    start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    replay = os.path.join(EVIDENCE, prop + '.replay.json')
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        vt.build()
        bad = judge_cases(r['cases'])
        for i, w in bad.items():
            print('case %s: %s' % (i, w))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(sys.argv[sys.argv.index('--replay') + 1]))
              if bad else 'no violation')
        return 1 if bad else 0
    vt.build()
    scale = float(os.environ.get('VERIF_SCALE', '0')) or {'quick': 3, 'thorough': 30}[tier]
    scale = int(scale) if scale >= 1 else scale

    # the specification on its own
    models = []
    for module, quick, thorough in props.MODELS[prop]:
        r = judge.spec(module, props.model_rows(module, tier), cfg=thorough if tier == 'thorough' else quick)
        if r['rc'] != 0 or 'Error:' in r['out']:
            raise ToolError('the specification %s does not have the properties it should:\n%s' % (module, r['out'][-3000:]))
        models.append(module)
    # the real code against the specification
    cases = props.Cases(prop, seed)
    props.GENERATORS[prop](cases, scale)
    bad = judge_cases(cases, log=True)
    violations = 0
    what = None
    if bad:
        again, what = confirm(cases, bad)
        if again is None:
            # never seen again: a run that was slow for other reasons
            if all('hang' in w or 'does not end' in w for w in bad.values()):
                raise ToolError('some runs did not end, once: ' + str(list(bad.items())[:3]))
            again = [c for c in cases if c['id'] in bad]
            what = next(iter(bad.values())) + ' (not seen again)'
        violations = len(bad)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'what': what, 'cases': again}, f, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    st = judge.STATS
    kinds = {}
    for c in cases:
        kinds[c['kind']] = kinds.get(c['kind'], 0) + 1
    samples = []
    for k in kinds:
        samples += [short(c) for c in cases if c['kind'] == k][:2]
    coverage = {'states': st['states'], 'transitions': st['transitions'], 'traces_validated_against_impl': st['traces'],
                'samples': samples, 'models': models, 'cases': kinds, 'runs_of_the_real_code': st['runs'], 'tlc_runs': st['tlc']}
    coverage.update({k: v for k, v in st.items() if k not in ('states', 'transitions', 'traces', 'runs', 'tlc')})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - start, 2), 'violations': violations}
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d cases, %d runs of the real code, %d traces judged, %d states, %.1f s'
          % (prop, len(cases), st['runs'], st['traces'], st['states'], time.time() - start))
    if violations:
        print('%d cases are not as specified, among them: %s' % (violations, what))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


ASSUMPTIONS = [
    'the TLA+ specification in /verif/spec states what the documentation and the physics of the repository mean',
    'TLC, the Java runtime and java/Flt.java evaluate it correctly (elementary functions within an ulp)',
    'numbers agree if they differ by rounding errors only, with tolerances given in the specification',
    'missions are those of the generators and models named here, not all there are']

if __name__ == '__main__':
    try:
        code = main()
    except ToolError as e:
        print('no answer: %s' % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        vt.cleanup()
    sys.exit(code)
