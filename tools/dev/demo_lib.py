import json, math, os, subprocess, sys

N = [0]


def write(m):
    N[0] += 1
    p = 'm%d.json' % N[0]
    open(p, 'w').write(m if isinstance(m, str) else json.dumps(m))
    return p


def fly(*missions):
    """end states (dictionaries) of missions flown in one process"""
    ps = [write(m) for m in missions]
    r = subprocess.run(['./probe', 'out.ndjson'] + ps, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    outs = [json.loads(l) for l in open('out.ndjson')]
    texts = r.stdout.split('=== ')[1:]
    for o, t in zip(outs, texts):
        o['text'] = t.split('\n', 1)[1]
    assert len(outs) == len(missions), 'the program died'
    return outs[0] if len(missions) == 1 else outs


def cli(m):
    p = m if isinstance(m, str) and m.endswith('.json') else write(m)
    return subprocess.run(['./post', '-c', p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)


def first(t=1.0, **kw):
    """a first phase that flies for t seconds; more parameters by keyword"""
    p = {'init': {'latitude': 10, 'longitude': 20, 'azimuth': 30, 'altitude': 0},
         'vehicle': {'structure_mass': 1000, 'propellant_mass': 500},
         'stepsize': 1, 'end_criterion': ['time_since_event', t]}
    veh = dict(p['vehicle'], **kw.pop('vehicle', {}))
    ini = dict(p['init'], **kw.pop('init', {}))
    p.update(kw)
    p['vehicle'], p['init'] = veh, ini
    return p


def engine(thrust=20000., isp=300., area=0., inc=(0, 0)):
    return {'incidence': list(inc), 'thrust_vac': thrust, 'isp_vac': isp, 'exit_area': area}


def const(c):
    return {'x': ['time', [0]], 'data': [c]}


def table(var, xs, ys):
    return {'x': [var, xs], 'data': ys}


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def close(a, b, rel=1e-9, abs_=1e-9):
    if isinstance(a, list):
        assert len(a) == len(b)
        s = max(norm(a), norm(b))
        assert norm(sub(a, b)) <= abs_ + rel * s, (a, b)
    else:
        assert abs(a - b) <= abs_ + rel * max(abs(a), abs(b)), (a, b)


def records(text):
    """per phase, the records as [time, position, velocity, altitude, propellant]"""
    import re
    out = []
    for part in re.split(r'^Starting Phase \d+\n', text, flags=re.M)[1:]:
        rs = []
        for r in part.split('Time: ')[1:]:
            nums = [float(x) for x in re.findall(r'-?\d+', r)]
            rs.append(nums)
        out.append(rs)
    return out
