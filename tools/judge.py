"""Puts cases to the real code and its answers to the specification.

Every judge takes a list of cases (JSON values with an "id") and returns
{id: what is wrong} for those of which the specification does not allow what
the real code did.  Statistics are added to STATS."""
import json, os, tempfile
import gen
from vt import *

STATS = {'states': 0, 'transitions': 0, 'traces': 0, 'runs': 0, 'tlc': []}


def chunks(rows, n):
    for i in range(0, len(rows), n):
        yield rows[i:i + n]


def spec(module, rows=None, env=None, cfg=None, traces=0, **kw):
    r = tlc(module, cfg=cfg, env=env, data={'CASES': rows} if rows is not None else None, **kw)
    STATS['states'] += r['states']
    STATS['transitions'] += r['transitions']
    STATS['traces'] += traces
    STATS['tlc'].append({'module': module, 'states': r['states'], 'transitions': r['transitions'],
                         'cases': len(rows) if rows is not None else None, 'wall_s': round(r['wall'], 2)})
    return r


def text_of(m):
    return json.dumps(m, allow_nan=False)


def run(missions, **kw):
    """missions: {key: mission}.  -> {key: observation}"""
    keys = list(missions)
    o = run_cases([dict({'id': i, 'text': text_of(missions[k])}, **kw) for i, k in enumerate(keys)])
    STATS['runs'] += len(keys)
    return {k: o[i] for i, k in enumerate(keys)}


# ---- trace validation (ConfSim) ------------------------------------------------
def sim_row(i, mission, o, tol, most=60, full=True):
    """The row for ConfSim, or a string saying what is wrong with the run."""
    end = outcome(o)
    if end not in ('ok', 'panic', 'budget'):
        return 'the run ended as ' + end
    recs, rest = parse_output(o['runs'][0]['out'])
    if rest and end != 'budget':
        return 'unexpected output %r' % rest[:200]
    if end == 'budget' or len(recs) > most:
        end, recs = 'budget', recs[:most]
    row = {'id': i, 'mission': conv_mission(mission), 'tol': tol, 'end': end, 'recs': conv_records(recs)}
    if end == 'ok':
        row['state'] = o['runs'][0]['state']
    return row


def judge_sim(cases, tol='1e-8', most=60):
    obs = run({c['id']: c['mission'] for c in cases}, budget=230 * (most + 10))
    bad, rows = {}, []
    for i, c in enumerate(cases):
        if outcome(obs[c['id']]) == 'skipped':
            continue
        r = sim_row(i, c['mission'], obs[c['id']], c.get('tol', tol), most)
        if isinstance(r, str):
            bad[c['id']] = r
        else:
            rows.append(r)
    for part in chunks(rows, 4000):
        r = spec('ConfSim', part, traces=len(part))
        acc = printed(r['out'], 'ACCEPT')
        ok = {t[1] for t in acc}
        d = STATS.setdefault('traces_to_the_end_and_until_ill_conditioned', [0, 0, 0])
        wild = {t[1]: t[3] for t in acc if t[2] == 'wild'}
        d[0] += len(ok - set(wild))
        d[1] += len(wild)
        d[2] += sum(wild.values())
        why = {t[1]: t for t in printed(r['out'], 'STATE')}
        for row in part:
            if row['id'] not in ok:
                c = cases[row['id']]
                w = why.get(row['id'])
                bad[c['id']] = ('the returned state differs in ' + ', '.join(sorted(w[2])) if w else
                                'what it printed is not a behaviour of the specification') \
                    + ' (run ended as %s)' % row['end']
    return bad


# ---- relations between states (ConfState) -----------------------------------------
def state_of(o):
    return o['runs'][0]['state'] if outcome(o) == 'ok' else None


def beyond(s, most=1e60):
    """Numbers beyond all reason (an integration that diverged), which overflow when raised to a power"""
    return any(not abs(unbits(x)) <= most for f in ('position', 'velocity') for x in s[f])


def judge_rows(prop, rows, owner, bad):
    """rows with integer ids; owner: id -> case id"""
    for part in chunks(rows, 4000):
        r = spec('ConfState', part, env={'PROP': prop}, traces=len(part))
        if r['states'] != 2 * len(part) or 'Error:' in r['out']:
            raise ToolError('ConfState did not judge every case:\n' + r['out'][-3000:])
        for t in printed(r['out'], 'FAIL'):
            bad[owner[t[1]]] = 'violated: ' + ', '.join(sorted(t[2]))
    return bad


def must_complete(m):
    """Missions that end by the clock and have no limit"""
    return all(x[0] in ('time_since_event', 'time') for x in gen.criteria(m)) and all(c.get('max_acceleration') in (None, -1) for c in m) \
        and not any(c.get('init') is None for c in m[:1])


def judge_state(prop, cases):
    """Every phase of every mission: its end, its start, the end of the one before."""
    runs = {}
    for c in cases:
        m = c['mission']
        for k in range(1, len(m) + 1):
            runs[c['id'], k, 's'] = m[:k]
            runs[c['id'], k, 'p'] = gen.probe(m, k)
    obs = run(runs)
    rows, owner, bad, unfinished = [], {}, {}, {}
    for c in cases:
        m = c['mission']
        e = None
        for k in range(1, len(m) + 1):
            so, po = obs[c['id'], k, 's'], obs[c['id'], k, 'p']
            for o in (so, po):
                end = outcome(o)
                if end not in ('ok', 'panic', 'budget', 'skipped'):
                    bad[c['id']] = 'the run ended as %s %s' % (end, failure(o))
                if end in ('panic', 'budget') and must_complete(m[:k]):
                    unfinished[c['id']] = m[:k]
            s, p = state_of(so), state_of(po)
            if s is None or p is None or beyond(s) or beyond(p):
                break
            row = {'id': len(rows), 'mission': conv_mission(m[:k]), 's': s, 'p': p}
            if e is not None:
                row['e'] = e
            if prop == 'C08':
                row['aborted'] = False
            owner[row['id']] = c['id']
            if (prop != 'C01' or e is not None) and (prop != 'C13' or k == 1):
                rows.append(row)
            e = s
    complete_or(unfinished, bad)
    return judge_rows(prop, rows, owner, bad)


def complete_or(unfinished, bad):
    """Missions that should have completed: may they fail (numbers beyond all reason)?"""
    if unfinished:
        b = judge_sim([{'id': i, 'mission': m} for i, m in unfinished.items()], most=200)
        for i, w in b.items():
            bad[i] = 'the mission does not complete; ' + w


def failure(o):
    if o.get('error'):
        return '(%s)' % o['error'][:200]
    r = o.get('runs') or []
    return '(%s)' % r[0]['error'][:200] if r and r[0].get('error') else ''


def judge_limit(cases):
    """The start of the last phase with and without its acceleration limit"""
    runs = {}
    for c in cases:
        # the step tried must be short, as it may be aborted as well
        m = gen.probe(c['mission'], len(c['mission']))
        m[-1]['stepsize'] = 1e-20
        runs[c['id'], 's'] = m
        runs[c['id'], 'u'] = m[:-1] + [dict(m[-1], max_acceleration=-1)]
    obs = run(runs)
    rows, owner, bad = [], {}, {}
    for c in cases:
        so, uo = obs[c['id'], 's'], obs[c['id'], 'u']
        s, u = state_of(so), state_of(uo)
        if outcome(so) not in ('ok', 'panic', 'skipped') or outcome(uo) not in ('ok', 'panic', 'skipped'):
            bad[c['id']] = 'the run ended as %s / %s' % (outcome(so), outcome(uo))
        if u is None or 'skipped' in (outcome(so), outcome(uo)) or beyond(u, 1e20) or not all(abs(unbits(x)) < 1e8 for x in u['velocity']):
            continue
        row = {'id': len(rows), 'mission': conv_mission(c['mission']), 'u': u,
               'aborted': s is None, 'limit': bits(c['mission'][-1]['max_acceleration'])}
        if s is not None:
            row['s'] = s
        owner[row['id']] = c['id']
        rows.append(row)
        d = STATS.setdefault('limits', {'aborted': 0, 'throttled': 0, 'full': 0})
        d['aborted' if s is None else 'throttled' if unbits(s['throttle']) < 1 else 'full'] += 1
    return judge_rows('C08', rows, owner, bad)


def judge_step(cases):
    """Single time steps: {mission, n, [part]}: the n-th step of the last phase
    (from 1), or the part of it left before the end of the phase."""
    runs = {}
    for c in cases:
        m, n = c['mission'], c['n']
        h = gen.stepsize(m)
        at = lambda t: m[:-1] + [dict(m[-1], end_criterion=['time_since_event', t])]
        runs[c['id'], 'p'] = at((n - 1) * h)
        runs[c['id'], 's'] = at((n - 1 + c.get('part', 1.)) * h)
        if len(m) > 1:
            runs[c['id'], 'e'] = m[:-1]
    obs = run(runs)
    rows, owner, bad, unfinished = [], {}, {}, {}
    for c in cases:
        st = {}
        for k in 'pse':
            o = obs.get((c['id'], k))
            if o is None:
                continue
            st[k] = state_of(o)
            if outcome(o) != 'skipped' and st[k] is None and must_complete(runs[c['id'], k]):
                unfinished[c['id']] = runs[c['id'], k]
        if None in st.values() or beyond(st['p'], 1e20):
            continue
        row = dict(st, id=len(rows), mission=conv_mission(c['mission']))
        owner[row['id']] = c['id']
        rows.append(row)
    complete_or(unfinished, bad)
    return judge_rows('C19', rows, owner, bad)


# ---- prescribed paths (ConfPath) ------------------------------------------------------
_force = []


def path_force():
    """Dynamic pressure of the path missions, as the real code has it"""
    if not _force:
        m = gen.path_mission([{'step': 1., 'target': 0., 'knots': [], 'values': []}], 1.)
        m[0]['end_criterion'] = ['time_since_event', 0.]
        s = state_of(run({1: m})[1])
        _force.append(unbits(s['dynamic_pressure']) if s else 1.)
    return _force[0]


def path_phases(c):
    u, o = c.get('unit', gen.SLOW), c.get('offset', 0.)
    return [{'step': p['step'] * u, 'target': p.get('target', 0.) + o,
             'knots': [x * u for x in p['knots']], 'values': [v + o for v in p['values']]} for p in c['phases']]


def judge_path(cases):
    bad = {}
    for most in sorted({c.get('most', 150) for c in cases}):
        bad.update(judge_paths([c for c in cases if c.get('most', 150) == most], most))
    return bad


def judge_paths(cases, most):
    f = path_force()
    obs = run({c['id']: gen.path_mission(path_phases(c), f) for c in cases}, budget=230 * (most + 10))
    bad, rows, ends = {}, [], {}
    for i, c in enumerate(cases):
        o = obs[c['id']]
        end = outcome(o)
        if end == 'skipped':
            continue
        if end not in ('ok', 'panic', 'budget'):
            bad[c['id']] = 'the run ended as ' + end
            continue
        recs, rest = parse_output(o['runs'][0]['out'])
        if rest and end != 'budget':
            bad[c['id']] = 'unexpected output %r' % rest[:200]
            continue
        if end == 'budget' or len(recs) > most:
            end, recs = 'budget', recs[:most]
        row = {'id': i, 'phases': conv(path_phases(c)), 'end': end,
               'unit': bits(c.get('unit', gen.SLOW)), 'scale': bits(abs(c.get('offset', 0.))),
               'times': [['P', v] if t == 'P' else ['R', bits(float(v[0]))] for t, v in recs]}
        if end == 'ok':
            s = o['runs'][0]['state']
            row['last'] = [s['time'], s['time_since_event']]
        ends[end] = ends.get(end, 0) + 1
        rows.append(row)
    for part in chunks(rows, 6000):
        r = spec('ConfPath', part, traces=len(part))
        acc = printed(r['out'], 'ACCEPT')
        ok = {t[1] for t in acc}
        for t in acc:
            d = STATS.setdefault('discards', {})
            d[str(t[3])] = d.get(str(t[3]), 0) + 1
        for row in part:
            if row['id'] not in ok:
                c = cases[row['id']]
                bad[c['id']] = 'the times printed are not a behaviour of the specification (run ended as %s)' % row['end']
    d = STATS.setdefault('ends', {})
    for k, v in ends.items():
        d[k] = d.get(k, 0) + v
    return bad


# ---- pairs of runs (ConfPair) -----------------------------------------------------------
def observed(o):
    """An observation for ConfPair, or a string"""
    end = outcome(o)
    if end not in ('ok', 'panic'):
        return 'the run ended as ' + end
    recs, rest = parse_output(o['runs'][0]['out'])
    if rest:
        return 'unexpected output %r' % rest[:200]
    x = {'end': end, 'recs': conv_records(recs)}
    if end == 'ok':
        x['state'] = o['runs'][0]['state']
    return x


def judge_pairs(pairs):
    """pairs: (id, kind, observation a, observation b) -> {id: what is wrong}"""
    bad, rows, owner = {}, [], {}
    for i, kind, a, b in pairs:
        if 'skipped' in (outcome(a), outcome(b)):
            continue
        a, b = observed(a), observed(b)
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                bad[i] = '%s / %s' % (a if isinstance(a, str) else a['end'], b if isinstance(b, str) else b['end'])
            continue
        owner[len(rows)] = i
        rows.append({'id': len(rows), 'kind': kind, 'a': a, 'b': b})
    for part in chunks(rows, 3000):
        r = spec('ConfPair', part, traces=2 * len(part))
        if r['states'] != 2 * len(part) or 'Error:' in r['out']:
            raise ToolError('ConfPair did not judge every case:\n' + r['out'][-3000:])
        for t in printed(r['out'], 'FAIL'):
            bad[owner[t[1]]] = 'the two runs differ (%s)' % ', '.join(t[2])
    return bad


def unconv(v):
    """TLC JSON -> JSON: pairs of integers are floats"""
    if isinstance(v, list):
        if len(v) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            return unbits(v)
        return [unconv(x) for x in v]
    if isinstance(v, dict):
        return {k: unconv(x) for k, x in v.items()}
    return v


def expand(missions):
    """The missions written out in full, by the specification"""
    out = []
    for part in chunks(missions, 500):
        path = os.path.join(scratch(), 'expanded.ndjson')
        r = spec('GenExpand', [{'mission': conv_mission(m)} for m in part], env={'OUT': path})
        if 'Error:' in r['out'] or not os.path.exists(path):
            raise ToolError('GenExpand failed:\n' + r['out'][-3000:])
        for line in open(path):
            m = unconv(json.loads(line)['mission'])
            for c in m:
                p = c['planet_model']
                p.pop('kind')
                c['planet_model'] = {'custom': p}
            out.append(m)
        os.remove(path)
    return out


def judge_expand(cases):
    full = expand([c['mission'] for c in cases])
    a = run({c['id']: c['mission'] for c in cases})
    b = run({c['id']: m for c, m in zip(cases, full)})
    return judge_pairs([(c['id'], 'near', a[c['id']], b[c['id']]) for c in cases])


def judge_prefix(cases):
    """The output of the first phases does not depend on the later ones"""
    ms = {}
    for c in cases:
        for k in range(1, len(c['mission']) + 1):
            ms[c['id'], k] = c['mission'][:k]
    o = run(ms)
    pairs = []
    for c in cases:
        n = len(c['mission'])
        for k in range(1, n):
            pairs.append((c['id'], 'prefix', o[c['id'], k], o[c['id'], n]))
    return judge_pairs(pairs)


# ---- configuration files (ConfConfig) ------------------------------------------------------
def judge_load(cases):
    """{tree, [text or raw]}: is it loaded, and is nothing simulated that must not be"""
    import docs
    runs = []
    for i, c in enumerate(cases):
        r = {'id': i, 'budget': 4000, 'reps': 0 if c.get('loadonly') else 1}
        if 'path' in c:
            r['path'] = c['path']
        elif 'raw' in c:
            r['raw'] = c['raw']
        elif not c.get('missing'):
            r['text'] = c['text'] if 'text' in c else docs.text(c['tree'])
        runs.append(r)
    obs = run_cases(runs)
    STATS['runs'] += len(runs)
    rows, bad = [], {}
    d = STATS.setdefault('loads', {})
    for i, c in enumerate(cases):
        o = obs[i]
        d[o['load']] = d.get(o['load'], 0) + 1
        if o['load'] == 'skipped':
            continue
        if o['load'] not in ('ok', 'err', 'panic'):
            bad[c['id']] = 'loading ended as ' + o['load']
            continue
        sim = bool(o['runs']) and (o['runs'][0]['end'] == 'ok' or 'Time:' in o['runs'][0]['out'])
        rows.append({'id': i, 'tree': c['tree'], 'loaded': o['load'] == 'ok',
                     'simulated': sim or 'Time:' in (o.get('load_out') or '')})
    return judge_config(rows, cases, bad)


def judge_config(rows, cases, bad):
    for part in chunks(rows, 6000):
        r = spec('ConfConfig', part, traces=len(part))
        v = printed(r['out'], 'VERDICT')
        if 'Error:' in r['out'] or len(v) < 1:
            raise ToolError('ConfConfig did not judge every case:\n' + r['out'][-3000:])
        d = STATS.setdefault('verdicts', {})
        for t in v:
            d[t[1]] = d.get(t[1], 0) + 1
        for t in printed(r['out'], 'FAIL'):
            bad[cases[t[1]]['id']] = 'a configuration is not treated as it should be: ' + ', '.join(sorted(t[2]))
    return bad


def cli(args, cwd=None, timeout=10, env=None, data=None):
    """-> (exit status, standard output)"""
    f = open(data, 'rb') if isinstance(data, str) else None
    try:
        r = subprocess.run([POST] + args, cwd=cwd or scratch(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                           timeout=timeout, **({'input': data} if isinstance(data, bytes) else {'stdin': f or subprocess.DEVNULL}))
    except subprocess.TimeoutExpired:
        return None, ''
    finally:
        if f:
            f.close()
    return r.returncode, r.stdout.decode(errors='replace')


def parallel(f, xs):
    scratch()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(WORKERS) as ex:
        return list(ex.map(f, xs))


DECOY = text_of([{'init': {'latitude': 0., 'longitude': 0., 'azimuth': 0., 'altitude': 0.},
                   'vehicle': {'structure_mass': 3., 'propellant_mass': 0.}, 'end_criterion': ['time', 2.]}])
FILES = ['m %d.json', 'm %d.json', 'm%d', '.m%d.json', 'm%d.JSON', 'm%d.toml', 'm\u00fc%d.json', 'm%d.json.bak', 'm%d.txt']


def judge_cli(cases):
    """Exit status and output of the command line tool.  {tree or mission, [raw, text, args]}"""
    import docs
    d = os.path.join(scratch(), 'cli')
    os.makedirs(d, exist_ok=True)
    lib = run_cases([dict({'id': i, 'budget': 200000}, **({'text': case_text(c)} if 'args' not in c and 'raw' not in c
                                                          else {'raw': c.get('raw', '')}))
                     for i, c in enumerate(cases)])
    STATS['runs'] += 2 * len(cases)

    def one(i):
        c = cases[i]
        if outcome(lib[i]) == 'budget':
            return None
        p = os.path.join(d, FILES[i % len(FILES)] % i)
        if 'args' not in c:
            with open(p, 'wb') as f:
                f.write(c['raw'].encode('latin-1') if 'raw' in c else case_text(c).encode())
        args = [a.replace('@', p) for a in c.get('args', ['--config', '@'])]
        return cli(args, cwd=d)
    res = parallel(one, range(len(cases)))
    rows, bad = [], {}
    for i, c in enumerate(cases):
        if res[i] is None:
            continue
        status, out = res[i]
        if status is None:
            bad[c['id']] = 'the command line tool does not end'
            continue
        row = {'id': i, 'tree': c['tree'] if 'tree' in c else docs.tree(c['mission']),
               'success': status == 0, 'simulated': 'Time:' in out}
        if 'args' not in c:
            row['completes'] = outcome(lib[i]) == 'ok'
            if lib[i]['load'] == 'ok' and lib[i]['runs'] and lib[i]['runs'][0]['out'] != out:
                bad[c['id']] = 'the command line tool prints something else than the library'
        k = 'exit %d' % status
        STATS.setdefault('cli', {})
        STATS['cli'][k] = STATS['cli'].get(k, 0) + 1
        rows.append(row)
    return judge_config(rows, cases, bad)


def case_text(c):
    import docs
    if 'text' in c:
        return c['text']
    return docs.text(c['tree']) if 'tree' in c else text_of(c['mission'])


# ---- standard output (ConfOut) ---------------------------------------------------------------
def judge_out(cases):
    """{mission}: every phase ends by the clock.  The states after every attempt
    are those returned when the phase is cut off there."""
    runs, plan = {}, {}
    for c in cases:
        m = c['mission']
        h, ph = 1., []
        for k in range(1, len(m) + 1):
            if m[k - 1].get('stepsize') is not None:
                h = m[k - 1]['stepsize']
            crit = gen.criterion(m[:k])
            assert crit[0] == 'time_since_event'
            if h < 2e-3:      # a step is within the tolerance: cutting off elsewhere does not show it
                break
            n = int((crit[1] + 0.999e-3) / h)
            ts = [h * j for j in range(1, n + 1)]
            part = crit[1] - n * h > 1e-3
            if n and abs(crit[1] - n * h - 1e-3) < 1e-9 or abs(crit[1] - (n + 1) * h + 1e-3) < 1e-9:
                # on the edge of the tolerance: either may be
                break
            if part or n == 0:
                ts.append(crit[1])
            ph.append((ts, part or n == 0))
            for j, t in enumerate(ts):
                runs[c['id'], k, j] = m[:k - 1] + [dict(m[k - 1], end_criterion=['time_since_event', t])]
            runs[c['id'], k, 'p'] = gen.probe(m, k)
        else:
            plan[c['id']] = ph
        runs[c['id'], 0] = m
    obs = run(runs)
    rows, bad, unfinished = [], {}, {}
    for i, c in enumerate(cases):
        o = obs[c['id'], 0]
        if outcome(o) == 'skipped' or c['id'] not in plan:
            continue
        if outcome(o) != 'ok':
            if must_complete(c['mission']):
                unfinished[c['id']] = c['mission']
            continue
        recs, rest = parse_output(o['runs'][0]['out'])
        if rest:
            bad[c['id']] = 'unexpected output %r' % rest[:200]
            continue
        if o.get('load_out'):
            bad[c['id']] = 'output while loading: %r' % o['load_out'][:200]
            continue
        phases, fine = [], True
        for k, (ts, part) in enumerate(plan[c['id']], 1):
            st = [state_of(obs[c['id'], k, j]) for j in range(len(ts))]
            p = state_of(obs[c['id'], k, 'p'])
            if p is None or None in st:
                fine = False
                break
            keep = ('time', 'position_planet', 'velocity', 'altitude', 'propellant_mass')
            phases.append({'start': {f: p[f] for f in keep}, 'part': part,
                           'after': [{f: s[f] for f in keep} for s in st]})
        if not fine or any(x in ('inf', '-inf', 'NaN') for _, v in recs if not isinstance(v, int) for x in v):
            continue
        rows.append({'id': i, 'phases': phases,
                     'recs': [['P', v] if t == 'P' else ['R', v[0], v[1:4], v[4:7], v[7], v[8]] for t, v in recs]})
    complete_or(unfinished, bad)
    for part in chunks(rows, 3000):
        r = spec('ConfOut', part, traces=len(part))
        ok = {t[1] for t in printed(r['out'], 'ACCEPT')}
        for row in part:
            if row['id'] not in ok:
                bad[cases[row['id']]['id']] = 'what it printed is not what happened'
            STATS['records'] = STATS.get('records', 0) + len(row['recs'])
    return bad


# ---- histories of a process (ConfPure) -----------------------------------------------------------
def histories(length=4):
    r = spec('GenOps', cfg='GenOps' if length == 4 else 'GenOps2')
    return [json.loads(json.loads(x)[1:]) for x in r['out'].splitlines() if x.startswith('"@')]


_results = {}


def result_no(o, rep=0):
    key = json.dumps(o['runs'][rep], sort_keys=True) if isinstance(rep, int) else json.dumps(rep, sort_keys=True)
    return _results.setdefault(key, len(_results) + 1)


def judge_ops(cases):
    """{texts: missions, every fourth of which is refused, ops: history}"""
    alone, keys = {}, {}
    for c in cases:
        keys[json.dumps(c['texts'])] = c['texts']
    # every mission in a process of its own
    ones = parallel(lambda t: run_cases([{'id': 0, 'text': t}])[0], [t for ts in keys.values() for t in ts])
    for k, ts in keys.items():
        alone[k] = [result_no(o) if o['load'] == 'ok' else 0 for o in ones[:len(ts)]]
        ones = ones[len(ts):]
    rows = []
    o = run_cases([{'id': i, 'ops': [dict({'op': x[0], 'slot': x[1]}, **({'text': c['texts'][x[2] - 1]} if x[0] == 'load' else {}))
                                     for x in c['ops']]} for i, c in enumerate(cases)])
    STATS['runs'] += sum(len(c['ops']) for c in cases)
    bad = {}
    for i, c in enumerate(cases):
        if o[i]['load'] == 'skipped':
            continue
        if any((x == 0) != (k % 4 == 3) for k, x in enumerate(alone[json.dumps(c['texts'])])):
            continue        # refused or accepted unexpectedly, but alone as well: not a matter of history
        if o[i]['load'] != 'ok':
            bad[c['id']] = 'the process ended as ' + o[i]['load']
            continue
        ops, got = [], []
        for x, r in zip(c['ops'], o[i]['runs']):
            if x[0] == 'load':
                ops.append(x[:3] + [r['load'] == 'ok'])
                got.append(0)
            else:
                ops.append(x[:3] + [r['end'] != 'none'])
                got.append(result_no(None, r))
        rows.append({'id': i, 'ops': ops, 'got': got, 'alone': alone[json.dumps(c['texts'])]})
    for part in chunks(rows, 6000):
        r = spec('ConfPure', part, traces=len(part))
        ok = {t[1] for t in printed(r['out'], 'ACCEPT')}
        for row in part:
            if row['id'] not in ok:
                bad[cases[row['id']]['id']] = 'a run gave something else than the mission in a process of its own'
    return bad


def judge_worlds(cases):
    """{texts: missions, every fourth of which is refused, steps: <<<<world, mission>>>>}: the command line tool on the same
    file, whose contents change, in different worlds (world/world.c)"""
    rows, bad = [], {}
    base = tempfile.mkdtemp(prefix='worlds-', dir=scratch())

    def answer(status, out):
        return _results.setdefault(json.dumps(['cli', status, out]), len(_results) + 1)

    def in_world(d, p, w, name, decoy, timeout=60):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG')}
        env.update(HOME=d, TMPDIR=d, XDG_CACHE_HOME=d, XDG_CONFIG_HOME=d)
        cwd, arg, data = d, p, None
        if w in (1, 2, 3):
            env.update(LD_PRELOAD=WORLD, WORLD_MODE=str(w), WORLD_FILE=[decoy, '/dev/null', decoy][w - 1],
                       WORLD_VALUE=['1', decoy, 'true'][w - 1])
            if w != 1:
                arg = os.path.relpath(p, d)
        if w == 4:      # not another machine, but called differently
            env.update(HOME=base, VERBOSE='1', DEBUG='1', POST_CONFIG=decoy, PWD='/')
            arg = os.path.relpath(p, base)
            cwd = base
            data = b'[]'
        if w == 1:      # a mission is at hand on standard input
            data = d + '/../in' + os.path.splitext(p)[1]
            with open(data, 'w') as f:
                f.write(DECOY)
        return cli(name + [arg], cwd=cwd, env=env, data=data, timeout=timeout)

    def one(i):
        c = cases[i]
        d = os.path.join(base, str(i))
        os.makedirs(d + '/a')
        alone = []
        for k, t in enumerate(c['texts']):
            p = d + '/a/%d.json' % k
            with open(p, 'w') as f:
                f.write(t)
            alone.append(in_world(d + '/a', p, 0, ['--config'], None, 10))
        os.makedirs(d + '/b')
        p = d + '/b/' + FILES[i % len(FILES)] % 0
        decoy = d + '/decoy.json'
        with open(decoy, 'w') as f:
            f.write(DECOY)
        for j, n in enumerate(c.get('beside', [])):
            with open(d + '/b/' + n, 'w') as f:
                f.write(DECOY)
        got = []
        for w, m in c['steps']:
            with open(p, 'w') as f:
                f.write(c['texts'][m - 1])
            os.utime(p, (1e9, 1e9))
            got.append(in_world(d + '/b', p, w, [['--config'], ['-c']][(w + m) % 2], decoy))
        return alone, got
    for i, (alone, got) in enumerate(parallel(one, range(len(cases)))):
        c = cases[i]
        if any(a[0] is None for a in alone):
            continue
        STATS['runs'] += len(alone) + len(got)
        row = {'id': i, 'ops': [], 'got': [], 'alone': [answer(*a) for a in alone]}
        for (w, m), g in zip(c['steps'], got):
            done = g[0] == 0 or 'Phase' in g[1]
            row['ops'] += [['start', 0, w, True], ['load', 1, m, done]] + [['run', 1, m, True]] * done
            row['got'] += [0, 0] + [answer(*g)] * done
        rows.append(row)
    for part in chunks(rows, 6000):
        r = spec('ConfPure', part, traces=len(part))
        ok = {t[1] for t in printed(r['out'], 'ACCEPT')}
        for row in part:
            if row['id'] not in ok:
                bad[cases[row['id']]['id']] = 'the command line tool gave something else in another world'
    return bad


def judge_same(cases):
    """{texts: <<a, b>>}: the same mission, written differently or run elsewhere
    ("other": reps - run again; process - in a process of its own; cli: by the command line tool)"""
    runs, pairs = [], []
    for i, c in enumerate(cases):
        runs.append({'id': (i, 0), 'text': c['texts'][0], 'reps': c.get('reps', 1), 'budget': 60000})
        runs.append({'id': (i, 1), 'text': c['texts'][-1], 'budget': 60000})
    ids = [r['id'] for r in runs]
    o = run_cases([dict(r, id=n) for n, r in enumerate(runs)])
    STATS['runs'] += len(runs)
    o = {ids[n]: o[n] for n in range(len(runs))}
    bad = {}
    for i, c in enumerate(cases):
        a, b = o[i, 0], o[i, 1]
        if 'skipped' in (a['load'], b['load']):
            continue
        if a['load'] == 'ok' and len({json.dumps(r, sort_keys=True) for r in a['runs']}) > 1:
            bad[c['id']] = 'running it again gave something else'
        if outcome(a) == 'budget' == outcome(b):
            if a['runs'][0]['out'][:50000] != b['runs'][0]['out'][:50000]:
                bad[c['id']] = 'the outputs differ'
            continue
        pairs.append((c['id'], 'same', a, b))
    bad.update(judge_pairs(pairs))
    return bad
