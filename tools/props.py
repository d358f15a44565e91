"""What is checked for each property: models of the specification, and cases
put to the real code and judged by the specification."""
import itertools, json, math, os, random
import gen, docs, judge, vt
from gen import NAMES, STEERING, TABLE, STILL, World, rnd, logu
from vt import bits, unbits, ToolError, scratch

REPO_EXAMPLE = '/repo/utils/example.json'

# module, configuration in the quick tier, in the thorough tier
MODELS = {
    'C01': [('MCSim', 'MCSim', 'MCSim2'), ('MCSim', 'MCSim3', 'MCSim3'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C02': [('MCMission', 'MCMission', 'MCMission2')],
    'C03': [('MCSim', 'MCSim', 'MCSim2'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C04': [('MCSim', 'MCSim', 'MCSim2'), ('MCSim', 'MCSim3', 'MCSim3'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C05': [('MCSim', 'MCSim', 'MCSim2'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C06': [('MCMission', 'MCMission', 'MCMission2'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C07': [('MCMission', 'MCMission', 'MCMission2'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C08': [('MCThrottle', 'MCThrottle', 'MCThrottle2'), ('MCSim', 'MCSim3', 'MCSim3'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C09': [('MCTables', 'MCTables', 'MCTables2')],
    'C10': [],      # the laws of well-formedness are checked by GenTables
    'C11': [('MCTables', 'MCTables', 'MCTables2')],
    'C12': [],      # the laws of the configuration language are checked by GenConfig
    'C13': [('MCPlanet', 'MCPlanet', 'MCPlanet2')],
    'C14': [('MCPlanet', 'MCPlanet', 'MCPlanet2')],
    'C15': [('MCAtmosphere', 'MCAtmosphere', 'MCAtmosphere2')],
    'C16': [('MCAttitude', 'MCAttitude', 'MCAttitude2')],
    'C17': [('MCPlanet', 'MCPlanet', 'MCPlanet2'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C18': [('MCNames', 'MCNames', 'MCNames')],
    'C19': [('MCStep', 'MCStep', 'MCStep2')],
    'C20': [('MCEngines', 'MCEngines', 'MCEngines2')],
    'C21': [('MCSim', 'MCSim', 'MCSim2'), ('MCWorld', 'MCWorld', 'MCWorld')],
    'C22': [('MCPure', 'MCPure', 'MCPure2')],      # as well as by GenOps
}


def model_rows(module, tier):
    """What a model is about, if it is not in the specification: missions that
    were chosen once and for all (tools/dev/worlds.py)"""
    if module != 'MCWorld':
        return None
    with open(os.path.join(vt.SPEC, 'worlds.ndjson')) as f:
        return [json.loads(l) for l in f][:None if tier == 'thorough' else 150]


class Cases(list):
    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed

    def put(self, kind, **case):
        case['id'] = len(self)
        case['kind'] = kind
        self.append(case)

    def rng(self, *what):
        return random.Random('%s %d %s' % (self.prop, self.seed, ' '.join(map(str, what))))


def random_missions(cs, n, kinds, tag='', **kw):
    for i in range(n):
        for kind in kinds:
            cs.put(kind, mission=gen.mission(cs.rng(tag, i), **{k: v(cs.rng(tag, i, k)) if callable(v) and k != 'end' else v
                                                                for k, v in kw.items()}))


# ---- building blocks ----------------------------------------------------------------
def quiet(lat=0., long=0., az=0., alt=1000., planet=STILL, wind=None, on=None, area=1., mass=1e30, **vehicle):
    """A vehicle that stays where it is"""
    c = {'init': {'latitude': lat, 'longitude': long, 'azimuth': az, 'altitude': alt}, 'planet_model': planet,
         'vehicle': dict({'structure_mass': mass, 'propellant_mass': 0., 'reference_area': area}, **vehicle),
         'stepsize': 1., 'end_criterion': ['time_since_event', 0.]}
    if wind is not None or on is not None:
        c['atmosphere'] = {}
        if on is not None:
            c['atmosphere']['enabled'] = on
        if wind is not None:
            c['atmosphere']['wind'] = wind
    return c


FAST = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.3e6,
                   'gravitational_parameters': [4e14, 1e-3, -2e-5, -3e-5], 'rotation_rate': 1e-4}}


def rich(rng, h=None, limit=0.):
    """A mission of one phase in which every variable has a value of its own"""
    m = rnd(rng, 2e3, 2e4, 4)
    w = World(6.9e6, 900., 2 * m, 1)
    a = rnd(rng, 8, 20, 3)
    table = lambda n, lo, hi: {'x': [n, [lo, hi]], 'data': [rnd(rng, 0.3, 1.2, 3), rnd(rng, 1.3, 2.5, 3)]}
    c = {'init': {'latitude': rnd(rng, 10, 60, 4), 'longitude': rnd(rng, 15, 80, 4), 'azimuth': rnd(rng, 20, 160, 4),
                  'altitude': rnd(rng, 2e3, 1.5e4, 4)},
         'planet_model': FAST,
         'atmosphere': {'enabled': True, 'wind': [rnd(rng, 20, 80, 3), rnd(rng, -90, -30, 3), rnd(rng, 30, 70, 3)]},
         'vehicle': {'structure_mass': m, 'propellant_mass': m, 'reference_area': float('%.3g' % (m * 1e-3)),
                     'drag_coeff': table('mach_number', 0., 3.), 'lift_coeff': table('alpha', -1.6, 1.6),
                     'side_force_coeff': table('altitude', 0., 4e4),
                     'engines': [{'incidence': [rnd(rng, 0.1, 0.3, 3), rnd(rng, -0.4, -0.1, 3)],
                                  'thrust_vac': float('%.4g' % (2 * m * a)), 'isp_vac': rnd(rng, 200, 400, 3),
                                  'exit_area': float('%.3g' % (m * 1e-5))}]},
         'steering': {'roll': ['time', [rnd(rng, 1, 4, 3), 0., 0.]], 'yaw': ['time_since_event', [rnd(rng, -4, -1, 3), 0., 0.]],
                      'pitch': ['time', [rnd(rng, -5, -1, 3), rnd(rng, -0.1, 0.1, 2), 0.]]},
         'stepsize': h or rng.choice([1., 2., 3.]), 'end_criterion': ['time_since_event', 0.]}
    if limit and rng.random() < limit:
        c['max_acceleration'] = rnd(rng, 6, 9)
    return c


def at(mission, t):
    """The mission, its last phase ended by the clock at t"""
    return mission[:-1] + [dict(mission[-1], end_criterion=['time_since_event', t])]


def value_of(state, name):
    """The variable in an observed state (for choosing targets, not for judging)"""
    f = lambda x: [unbits(y) for y in x] if isinstance(x[0], list) else unbits(x)
    if name.startswith('euler_angles_'):
        return f(state['euler_angles'])[['roll', 'yaw', 'pitch'].index(name[13:])]
    if name.endswith('_norm'):
        return math.sqrt(sum(x * x for x in f(state[name[:-5]])))
    if name[-1] in '123':
        return f(state[name[:-1]])[int(name[-1]) - 1]
    return f(state[name])


def crossings(cs, n, name=None, tag='cross', kind='sim', phases=1, also=(), falling=False):
    """Missions that end when a variable reaches a value between those it has at
    the ends of two successive steps (according to the real code)"""
    missions, runs = [], {}
    for i in range(n):
        rng = cs.rng(tag, i)
        v = name or rng.choice(NAMES)
        m = [rich(rng, limit=0.2)] if rng.random() < 0.6 else gen.mission(rng, phases=phases, steps=5, limit=0.1)
        if falling and rng.random() < 0.7:      # engines off, after a while
            m = m + [{'vehicle': {'engines': []}, 'stepsize': rng.choice([1., 5., 20.])}]
            m[-2]['end_criterion'] = ['time_since_event', rng.choice([0., 5.])]
        h = gen.stepsize(m)
        k = rng.randrange(0, 4)
        missions.append((m, v, k, rng))
        for j in (k, k + 1):
            runs[i, j] = at(m, j * h)
    obs = judge.run(runs)
    for i, (m, v, k, rng) in enumerate(missions):
        a, b = judge.state_of(obs[i, k]), judge.state_of(obs[i, k + 1])
        if a is None or b is None:
            continue
        x, y = value_of(a, v), value_of(b, v)
        if not (math.isfinite(x) and math.isfinite(y)):
            continue
        t = rng.choice([x + rng.random() * (y - x)] * 6 + [y, x, y + (y - x) * rng.random(), x - (y - x) * rng.random()])
        m = m[:-1] + [dict(m[-1], end_criterion=[v, float('%.9g' % t)])]
        if abs(x - y) < 1e-2 and rng.random() < 0.7:
            continue
        cs.put(kind, mission=m)
        for other in also:
            cs.put(other, mission=m)


def burn(rng):
    """A phase in which most of the propellant is used within a few steps, mostly
    with a limit that takes effect on the way"""
    dry = logu(rng, 10, 1e6)
    prop = float('%.4g' % (dry * rng.choice([1., 3., rnd(rng, 0.3, 10)])))
    h = rng.choice([1., 10., 20., rnd(rng, 0.5, 60)])
    a = rnd(rng, 8, 25, 3)                       # acceleration at the start
    isp = float('%.4g' % (6 * h * a * (dry + prop) / 9.80665 / prop * rng.choice([1., 1., 0.7, 2.])))
    k = rng.choice([1, 1, 2, 4])
    es = [{'incidence': rng.choice([[0., 0.], [rnd(rng, -0.3, 0.3), rnd(rng, -0.3, 0.3)]]), 'thrust_vac': float('%.6g' % (a * (dry + prop) / k)),
           'isp_vac': isp, 'exit_area': rng.choice([0., float('%.3g' % ((dry + prop) * 2e-5))])} for _ in range(k)]
    c = {'init': gen.init(rng), 'planet_model': rng.choice([STILL, FAST, 'spherical', 'smithsonian']),
         'vehicle': {'structure_mass': dry, 'propellant_mass': prop, 'reference_area': float('%.3g' % (dry * rng.choice([0., 1e-4, 1e-3]))),
                     'drag_coeff': {'x': ['mach_number', [0., 1., 5.]], 'data': [0.3, 0.8, 0.4]}, 'engines': es}, 'stepsize': h}
    if rng.random() < 0.5:
        c['atmosphere'] = {'enabled': True, 'wind': gen.wind(rng)}
    if rng.random() < 0.85:
        c['max_acceleration'] = float('%.4g' % (a * rng.choice([0.9, 1.02, 1.2, rng.uniform(0.5, 3)])))
    if rng.random() < 0.5:
        c['steering'] = {'pitch': ['time', [float('%.3g' % (rng.uniform(-10, 10) / h)), 0., 0.]]}
    c['end_criterion'] = ['time_since_event', h * rng.randrange(0, 5)]
    return c


def burns(cs, n, kinds=('sim',), tag='burn'):
    """Burning down, to the end by the clock, with all that may happen before and after"""
    for i in range(n):
        rng = cs.rng(tag, i)
        m = [burn(rng)]
        h = m[0]['stepsize']
        m[0]['end_criterion'] = gen.clock_end(rng, h, 4)
        for _ in range(rng.choice([0, 1, 2])):
            c = {'end_criterion': gen.clock_end(rng, h, 2)}
            if rng.random() < 0.4:
                c['vehicle'] = {'engines': []}
            elif rng.random() < 0.5:
                c['vehicle'] = {f: m[0]['vehicle'][f] for f in rng.choice([['structure_mass'], ['propellant_mass'], ['structure_mass', 'propellant_mass']])}
            if rng.random() < 0.4:
                c['max_acceleration'] = rng.choice([-1, rnd(rng, 5, 30)])
            m.append(c)
        for kind in kinds:
            cs.put(kind, mission=m)


def chains(cs, n, tag='chain', kinds=('sim',), names=None, phases=None, burning=False):
    """Missions whose phases end by any variable, often by the same again: at a
    value between two successive steps, at or next to that of a step's end, or at
    the one they start with (according to the real code)"""
    ms = []
    for i in range(n):
        rng = cs.rng(tag, i)
        r = rng.random()
        k = rng.choice(phases or [2, 2, 3, 3, 4])
        if r < (0.25 if not burning else 0.8):
            m = [burn(rng)]
        elif r < 0.4:
            m = [rich(rng, limit=0.3)]
        elif r < 0.7:
            m = gen.mission(rng, phases=rng.choice([1, k]), steps=3, limit=0.3)
        else:
            m = gen.exotic(rng, limit=0.3, phases=rng.choice([1, k]))
        for j in range(len(m), k):
            c = {'end_criterion': gen.clock_end(rng, gen.stepsize(m), 3)}
            if rng.random() < 0.4:
                c['stepsize'] = rng.choice([0.5, 2., logu(rng, 0.05, 500.)])
            if rng.random() < 0.3:
                c['vehicle'] = {'engines': []}
            if rng.random() < 0.2:
                c['max_acceleration'] = rng.choice([rnd(rng, 2, 9), -1])
            if rng.random() < 0.25:
                c['steering'] = {'pitch': ['time_since_event', [rnd(rng, -9, 9), 0., 0.]]}
            m.append(c)
        if 'max_acceleration' not in m[0] and rng.random() < 0.35:     # a limit that is felt
            m[0]['max_acceleration'] = rnd(rng, 2, 20)
        v = rng.choice(names or NAMES)
        vs = [v if rng.random() < 0.6 else rng.choice(names or NAMES + ['time', 'altitude', 'mass', 'velocity_norm'] * 4) for _ in m]
        ms.append((m if r < (0.25 if not burning else 0.8) else gen.keep_mass(m, 3e3), vs, rng))
    live = dict(enumerate(ms))
    for p in range(max(len(m) for m, _, _ in ms)):
        runs, plan = {}, {}
        for i, (m, vs, rng) in live.items():
            if p >= len(m):
                continue
            head = m[:p + 1]
            h, k = gen.stepsize(head), rng.choice([0, 0, 1, 2, 3])
            plan[i] = k
            for j in (k, k + 1):
                runs[i, j] = at(head, j * h)
        obs = judge.run(runs)
        for i, k in plan.items():
            m, vs, rng = live[i]
            a, b = judge.state_of(obs[i, k]), judge.state_of(obs[i, k + 1])
            if a is None or b is None:
                live[i] = (m[:p] or [dict(m[0], end_criterion=['time_since_event', 0.])], vs, rng)
                continue
            v = vs[p]
            x, y = value_of(a, v), value_of(b, v)
            if not (math.isfinite(x) and math.isfinite(y)) or rng.random() < 0.15:
                continue        # as it was: by the clock
            q = rng.randrange(10)
            if q <= 4:
                t = x + rng.random() * (y - x)
            elif q <= 6:
                t = y
            elif q == 7:
                t = x
            else:
                t = y + rng.choice([5e-4, -5e-4, 9e-4, -9e-4])
            m[p] = dict(m[p], end_criterion=[v, float('%.*g' % (17 if q > 4 else 9, t))])
    for m, vs, rng in live.values():
        for k in range(1, len(m)):      # then the same again
            if rng.random() < 0.06:
                m[k] = {f: x for f, x in m[k].items() if f != 'end_criterion'}
        for kind in kinds:
            cs.put(kind, mission=m)


def paths(cs, n, tag='path'):
    """Prescribed courses of the end criterion variable"""
    for i in range(n):
        rng = cs.rng(tag, i, 'x')
        c = {'phases': [path_phase(cs.rng(tag, i, k)) for k in range(cs.rng(tag, i).choice([1, 1, 2, 3]))]}
        if rng.random() < 0.25:      # short steps: the times printed say little, but the outcome and their number do
            c['unit'] = rng.choice([1., 1e-2, 1e-4, 1e-6, 1e-9])
        sharp = any(b - a < 0.01 * p['step'] for p in c['phases'] for a, b in zip(p['knots'], p['knots'][1:]))
        if rng.random() < 0.3 and not sharp:
            c['offset'] = float('%.3g' % (rng.choice([-1, 1]) * logu(rng, 3., 1e5)))
        cs.put('path', **c)


def long_paths(cs, n, tag='long'):
    """Phases of thousands of steps"""
    for i in range(n):
        rng = cs.rng(tag, i)
        ps, total = [], 0
        for k in range(rng.choice([1, 2, 3])):
            if k and rng.random() < 0.5:
                ps.append(path_phase(rng))
                total += 150
                continue
            steps = rng.choice([1100, 1300, 2200]) if i else 6000
            s = rng.choice([1, -1]) * logu(rng, 0.02, 10.)
            ps.append({'step': rng.choice([1., 0.5, 2.]), 'target': (steps + rng.choice([0.4, 0.999, 0.])) * s, 'knots': [0., steps + 2.],
                       'values': [0., (steps + 2.) * s]})
            ps[-1]['knots'] = [x * ps[-1]['step'] for x in ps[-1]['knots']]
            total += steps + 30
        cs.put('path', phases=ps, most=10000)


def path_phase(rng):
    """One phase: knots and values in units in which a step is about 1"""
    step = rng.choice([1., 1., 0.5, 0.3, 2., rnd(rng, 0.2, 3)])
    kind = rng.randrange(8)
    span = step * rng.choice([3, 5, 8])
    scale = rng.choice([1., 1., 10., 1e3, 0.02])
    if kind == 0:      # a line
        s = rnd(rng, -2, 2) or 1.
        knots, values = [0., span], [0., s * scale]
        target = float('%.6g' % (s * scale * rng.uniform(-0.2, 1.)))
    elif kind == 1:    # a step, hard to hit: interpolation creeps
        c = float('%.6g' % (rng.random() * span))
        w = logu(rng, 1e-6, 1e-1) * step
        lo, hi = -scale * logu(rng, 1e-2, 10), scale * logu(rng, 1e-2, 1e4)
        knots, values = [0., max(c, 1e-9), max(c, 1e-9) + w, span + c + 2 * w], [lo, lo, hi, hi]
        target = 0.
        if rng.random() < 0.5:
            values = [-v for v in values]
    elif kind == 2:    # convex: the estimate is always short or long
        p = rng.choice([2, 3, 5, 0.5, 1 / 3, 8, 16])
        n = rng.choice([6, 12])
        knots = [float('%.6g' % (span * j / n)) for j in range(n + 1)]
        c = rng.random()
        values = [float('%.6g' % (scale * ((j / n)**p - c**p))) for j in range(n + 1)]
        target = 0.
        if rng.random() < 0.4:
            values = [-v for v in values]
    elif kind == 3:    # flat, or running away
        v = rnd(rng, -1, 1)
        knots, values = [0., span], [v * scale, v * scale * rng.choice([1., 1., 2.])]
        target = rng.choice([0., v * scale, v * scale / 2, v * scale + 5e-4, v * scale - 5e-4, v * scale + 1.5e-3])
    elif kind == 4:    # oscillating
        n = rng.randrange(3, 8)
        knots = [float('%.6g' % (span * j / n)) for j in range(n + 1)]
        values = [float('%.5g' % (scale * rng.uniform(-1, 1))) for _ in knots]
        target = float('%.5g' % (scale * rng.uniform(-0.8, 0.8)))
    elif kind == 5:    # a target at the value of a step's end, or nearly
        n = rng.randrange(2, 6)
        knots = [float('%.6g' % (step * j)) for j in range(n + 1)]
        values = [float('%.5g' % (scale * rng.uniform(-1, 1))) for _ in knots]
        target = values[rng.randrange(n + 1)] + rng.choice([0., 9e-4, -9e-4, 1.1e-3, -1.1e-3, 2e-3])
    elif kind == 6:    # touching: comes close and goes away again
        c = step * rng.randrange(1, 4)
        knots = [0., c, 2 * c + 4 * step]
        d = rng.choice([5e-4, -5e-4, 2e-3, -2e-3, 1e-2])
        values = [scale * rnd(rng, 0.2, 1), d, scale * rnd(rng, 0.2, 1)]
        if rng.random() < 0.5:
            values = [-v for v in values]
        target = 0.
    else:              # starts beyond or at the target
        knots = [0., step * 1.5, step * 4]
        s = rng.choice([1, -1])
        values = [s * rng.choice([0., 5e-4, 2e-3, 1.]), s * scale, -s * scale * rng.choice([1, 1, 1e3])]
        target = 0.
    ks = []
    for x in knots:    # strictly increasing
        ks.append(x if not ks or x > ks[-1] else ks[-1] * (1 + 1e-9) + 1e-12)
    return {'step': step, 'target': target, 'knots': ks, 'values': values}


def turns(cs, n, tag='turn'):
    """Ends by an attitude angle that turns fast, through whole turns, or slows down"""
    for i in range(n):
        rng = cs.rng(tag, i)
        m = gen.mission(rng, phases=rng.choice([1, 1, 2]), limit=0, steps=3, atm=rng.random() < 0.3)
        h = rng.choice([1., 2., 5., rnd(rng, 0.2, 10)])
        a = rng.choice(['roll', 'yaw', 'pitch'])
        p = rng.choice([rnd(rng, 5, 60), rnd(rng, 60, 400), rnd(rng, 400, 4000)]) * rng.choice([1, -1]) / h
        q = rng.choice([0., 0., -p * rng.uniform(0.02, 0.2) / h, p * rng.uniform(0.02, 0.5) / h])
        k = rng.randrange(1, 5) * rng.uniform(0.1, 1)
        c = m[-1]
        c['stepsize'] = h
        c['steering'] = dict(c.get('steering') or {}, **{a: ['time_since_event', [float('%.5g' % p), float('%.5g' % q), 0.]]})
        at_end = p * k * h + q * (k * h)**2
        c['end_criterion'] = ['euler_angles_' + a, float('%.7g' % math.radians(at_end))]
        if rng.random() < 0.4:      # later phases use the angle found, and the step size given
            m.append({'end_criterion': gen.clock_end(rng, h, 3)})
        cs.put('sim', mission=gen.keep_mass(m, 100.))


# ---- the properties -------------------------------------------------------------------
def c01(cs, n):
    random_missions(cs, 150 * n, ['state:C01'], tag='a', phases=lambda r: r.choice([2, 3, 4, 6, 8]))
    random_missions(cs, 60 * n, ['sim'], tag='b', phases=lambda r: r.choice([2, 3, 4, 6]))
    random_missions(cs, 60 * n, ['prefix'], tag='c', phases=lambda r: r.choice([2, 3, 4, 5]))
    # initialisations of later phases have no effect
    for i in range(100 * n):
        rng = cs.rng('d', i)
        m = gen.mission(rng, phases=rng.choice([2, 3, 4]), limit=0.1)
        o = [dict(m[0])] + [dict(c) for c in m[1:]]
        for c in o[1:]:
            if rng.random() < 0.7:
                c['init'] = gen.init(rng)
            else:
                c.pop('init', None)
        cs.put('same', texts=[judge.text_of(m), judge.text_of(o)])
    paths(cs, 100 * n)
    mass_missions(cs, 60 * n, 'state:C01', 'mass')
    chains(cs, 60 * n, kinds=('sim', 'state:C01'))
    # one phase like another
    for i in range(40 * n):
        rng = cs.rng('again', i)
        m = gen.mission(rng, phases=rng.choice([1, 2, 3]), limit=0.1, steps=4)
        j = rng.randrange(len(m))
        again = [json.loads(json.dumps({k: v for k, v in m[j].items() if k != 'init'})) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.3:
            again = [{'end_criterion': ['time_since_event', 1.]}] * rng.choice([2, 3])
        cs.put('sim', mission=gen.keep_mass(m[:j + 1] + again + m[j + 1:]))


def c02(cs, n):
    inheritance(cs, n)
    random_missions(cs, 80 * n, ['expand'], tag='a', phases=lambda r: r.choice([2, 3, 4, 6]))
    random_missions(cs, 40 * n, ['sim'], tag='b', phases=lambda r: r.choice([2, 3, 4, 6]))


def tweak(rng, x):
    """A value that differs from x in one number"""
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float)):
        return rng.choice([0., -x, 2. * x, x * 1.001, float('%.3g' % x), 0.5 * x, x])
    if isinstance(x, dict):
        k = rng.choice(list(x))
        return dict(x, **{k: tweak(rng, x[k])})
    if isinstance(x, list) and x:
        if isinstance(x[0], str) and x[0] in NAMES and rng.random() < 0.25:      # another variable
            return [rng.choice([v for v in ['time', 'time_since_event', 'mach_number', 'alpha', 'altitude'][:2 if len(x) == 2 and len(x[1]) == 3 else 5] if v != x[0]])] + x[1:]
        if isinstance(x[0], dict) and rng.random() < 0.2:
            return rng.choice([x[::-1], x + x[:1], x[1:]])
        ks = [k for k, y in enumerate(x) if not isinstance(y, str)]
        if not ks:
            return x
        k = rng.choice(ks)
        return x[:k] + [tweak(rng, x[k])] + x[k + 1:]
    return x


def variant(rng, m):
    """The mission, but for one number somewhere"""
    m = json.loads(json.dumps(m))
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        c = m[0] if rng.random() < 0.8 else rng.choice(m)
        places = [(g, f) for g in ('planet_model', 'atmosphere', 'vehicle', 'steering', 'init') if isinstance(c.get(g), dict) for f in c[g]
                  if c[g][f] is not None]
        if not places:
            continue
        g = rng.choice([g for g, _ in places])
        f = rng.choice([y for x, y in places if x == g])
        y = tweak(rng, c[g][f])
        if sensible(g, f, y):
            c[g][f] = y
    return gen.keep_mass(m)


def tweaks(cs, n, kinds):
    """Phases that set parameters to almost the values they have"""
    for i in range(n):
        rng = cs.rng('tweak', i)
        m = [rich(rng, limit=0.3)]
        m[0]['end_criterion'] = ['time_since_event', rng.choice([0., 1.5])]
        if rng.random() < 0.5:
            m[0]['vehicle']['engines'].append(dict(m[0]['vehicle']['engines'][0], incidence=[-0.2, 0.1]))
        now = {(g, f): x for g in ('vehicle', 'atmosphere', 'steering', 'planet_model') for f, x in m[0][g].items()}
        for f in ('stepsize', 'max_acceleration'):
            if f in m[0]:
                now['', f] = m[0][f]
        for _ in range(rng.choice([1, 2, 3])):
            c = {}
            keys = rng.sample(list(now), rng.choice([1, 1, 2, 4]))
            if rng.random() < 0.4:
                keys = [('vehicle', 'engines')]
                c['atmosphere'] = {'enabled': True}
            for g, f in keys:
                x = now[g, f]
                for _ in range(50):
                    y = tweak(rng, x)
                    if sensible(g, f, y):
                        break
                else:
                    continue
                now[g, f] = y
                if g:
                    c.setdefault(g, {})[f] = y
                else:
                    c[f] = y
            c['end_criterion'] = ['time_since_event', rng.choice([0., 0., 1., 1.25])]
            m.append(c)
        cs.put(kinds[i % len(kinds)], mission=gen.keep_mass(m))


def sensible(g, f, y):
    """Within the configurations that the checks are about"""
    if f in ('stepsize', 'structure_mass'):
        return y > 0
    if f == 'propellant_mass':
        return y >= 0
    if f == 'max_acceleration':
        return y == -1 or y >= 5
    if f == 'engines':
        return all(e['thrust_vac'] >= 0 and e['isp_vac'] > 0 and e['exit_area'] >= 0 for e in y)
    if f.endswith('_coeff'):
        return all(y[d][1] == sorted(set(y[d][1])) for d in 'xyz' if d in y)
    if f == 'custom':
        return y['equatorial_radius'] > 1e6 and y['polar_radius'] > 1e6 and y['gravitational_parameters'][0] > 0
    if f == 'reference_area':
        return y >= 0
    if g == 'init':
        return abs(y) <= {'latitude': 90}.get(f, 1e6)
    return True


def inheritance(cs, n):
    """Every parameter unset (or null), set to one value, set to another, in four
    phases; and pairs of parameters"""
    A, B = {}, {}
    line = lambda v, a, b: {'x': [v, [0., 60.]], 'data': [a, b]}
    A['planet_model'], B['planet_model'] = 'fisher_1960', FAST
    A['atmosphere.enabled'], B['atmosphere.enabled'] = False, True
    A['atmosphere.wind'], B['atmosphere.wind'] = [80., -60., 40.], [0., 0., 0.]
    A['vehicle.structure_mass'], B['vehicle.structure_mass'] = 800., 1500.
    A['vehicle.propellant_mass'], B['vehicle.propellant_mass'] = 700., 300.
    A['vehicle.reference_area'], B['vehicle.reference_area'] = 2., 0.
    for f, v in (('drag', 1.), ('lift', 2.), ('side_force', -3.)):
        A['vehicle.%s_coeff' % f], B['vehicle.%s_coeff' % f] = line('time_since_event', v, 2 * v), {'x': ['time', []], 'data': []}
    A['vehicle.engines'] = [{'incidence': [0.2, -0.1], 'thrust_vac': 9e3, 'isp_vac': 250., 'exit_area': 0.01},
                            {'incidence': [-0.2, 0.3], 'thrust_vac': 5e3, 'isp_vac': 350., 'exit_area': 0.}]
    B['vehicle.engines'] = []
    A['max_acceleration'], B['max_acceleration'] = 12., -1
    for i, a in enumerate(('roll', 'yaw', 'pitch')):
        A['steering.' + a], B['steering.' + a] = ['time', [3. + i, -1., 0.2]], ['time_since_event', [0., 0., 0.]]
    A['stepsize'], B['stepsize'] = 0.7, 2.
    A['end_criterion'], B['end_criterion'] = ['time_since_event', 3.], ['time_since_event', 2.25]
    names = list(A)
    more = {f: [] for f in names}
    more['planet_model'] = ['spherical', 'smithsonian', {'custom': dict(FAST['custom'], rotation_rate=0.)},
                            {'custom': dict(FAST['custom'], gravitational_parameters=[0., 0., 0., 0.])}]
    more['atmosphere.wind'] = [[0., 0., 50.], [20., 10., -30.]]
    more['vehicle.structure_mass'] = [1000.]
    more['vehicle.propellant_mass'] = [0., 500.]
    more['vehicle.reference_area'] = [1.5, 1e-3]
    for f in ('drag', 'lift', 'side_force'):
        more['vehicle.%s_coeff' % f] = [line('time', 0., 0.), {'x': ['alpha', [0.5]], 'data': [0.7]},
                                        {'x': ['alpha', [-2., 2.]], 'y': ['time', [0., 9.]], 'data': [[1., 2.], [3., 0.]]}]
    more['vehicle.engines'] = [[{'incidence': [0., 0.], 'thrust_vac': 0., 'isp_vac': 400., 'exit_area': 0.02}],
                               [{'incidence': [0.05, 0.1], 'thrust_vac': 2e4, 'isp_vac': 400., 'exit_area': 0.02}]]
    more['max_acceleration'] = [20., 1e9]
    for a in ('roll', 'yaw', 'pitch'):
        more['steering.' + a] = [['time', [0., 0., 0.]], ['velocity_norm', [0.01, 0., 0.]], ['time_since_event', [0., 1., 0.]]]
    more['stepsize'] = [1., 0.1]
    more['end_criterion'] = [['time_since_event', 0.], ['time_since_event', 1.]]

    def base():
        return [{'init': {'latitude': 30., 'longitude': 50., 'azimuth': 70., 'altitude': 9000.},
                 'planet_model': 'smithsonian', 'atmosphere': {'enabled': True, 'wind': [20., 10., -30.]},
                 'vehicle': {'structure_mass': 1000., 'propellant_mass': 500., 'reference_area': 1.5,
                             'drag_coeff': line('time', 0.5, 0.9), 'lift_coeff': line('alpha', 0.5, 1.),
                             'side_force_coeff': line('mach_number', 0.3, 30.),
                             'engines': [{'incidence': [0.05, 0.1], 'thrust_vac': 2e4, 'isp_vac': 400., 'exit_area': 0.02}]},
                 'steering': {'roll': ['time', [2., 0., 0.]], 'yaw': ['time_since_event', [1., 0.1, 0.]],
                              'pitch': ['time_since_event', [-2., 0., 0.]]},
                 'stepsize': 1., 'end_criterion': ['time_since_event', 1.5]}, {}, {}, {}]

    def apply(m, name, pattern, nulls):
        for k, x in enumerate(pattern):
            g, _, f = name.rpartition('.')
            c = m[k].setdefault(g, {}) if g else m[k]
            if x:
                c[f] = A[name] if x == 1 else B[name] if x == 2 else more[name][x - 3]
            elif k and nulls:
                c[f] = None
            elif k and not c and g:
                m[k].pop(g)
    i = 0
    kinds = ['expand', 'sim']
    tweaks(cs, 60 * n, kinds)
    for name in names:
        for j in range(8 * n):
            m = base()
            rng = cs.rng('more', name, j)
            apply(m, name, [rng.choice([0, 1, 2, 3 + rng.randrange(len(more[name])) if more[name] else 1]) for _ in m], j % 2)
            cs.put(kinds[j % 2], mission=m)
        for pattern in itertools.product((0, 1, 2), repeat=4):
            i += 1
            if n < 2 and sum(1 for x in pattern if x) > 2 and cs.rng('p', i).random() < 0.5:
                continue
            m = base()
            apply(m, name, pattern, i % 2)
            cs.put(kinds[i // 2 % 2], mission=m)
            if n >= 10:
                cs.put(kinds[1 - i // 2 % 2], mission=m)
    # one is set; another comes and goes, which may hide it for a while
    for x, y in itertools.permutations(names, 2):
        for j in range(n):
            rng = cs.rng('hidden', x, y, j)
            m = base()
            apply(m, x, [rng.choice([1, 1, 3] if more[x] else [1]), 0, 0, 0], False)
            apply(m, y, [0, rng.choice([1, 2, 2] + [3 + k for k in range(len(more[y]))]), 0, 0], False)
            g, _, f = y.rpartition('.')
            b = (base()[0].get(g, {}) if g else base()[0]).get(f)
            back = rng.choice([2, 3])
            if y == 'max_acceleration':
                b = -1
            if b is not None and 'end_criterion' not in y:
                if g:
                    m[back].setdefault(g, {})[f] = b
                else:
                    m[back][f] = b
            if rng.random() < 0.3:
                m[1]['end_criterion'] = ['time_since_event', 0.]
                m[2]['end_criterion'] = ['time_since_event', 1.]
            cs.put(kinds[rng.random() < 0.15], mission=m)
    for j in range(250 * n):
        rng = cs.rng('pair', j)
        m = base()
        for name in rng.sample(names, rng.choice([2, 2, 3, 6])):
            apply(m, name, [rng.randrange(3 + len(more[name])) for _ in m], rng.random() < 0.5)
        cs.put(kinds[j % 2], mission=m)


def c03(cs, n):
    long_paths(cs, 3 * n)
    paths(cs, 500 * n)
    crossings(cs, 250 * n, tag='x', kind='state:C03', also=('sim',))
    random_missions(cs, 30 * n, ['state:C03'], tag='a')
    turns(cs, 80 * n)
    chains(cs, 50 * n, kinds=('sim', 'state:C03'))
    # falling through an altitude, slowing down, burning down
    for name in ('altitude', 'altitude', 'altitude', 'velocity_norm', 'mass', 'dynamic_pressure', 'position_norm', 'velocity_planet_norm'):
        crossings(cs, 12 * n, tag='y' + name, name=name, kind='state:C03', also=('sim',), falling=True)


def c04(cs, n):
    long_paths(cs, 3 * n)
    paths(cs, 900 * n)
    crossings(cs, 150 * n, tag='x')
    turns(cs, 60 * n)
    chains(cs, 60 * n)
    chains(cs, 40 * n, 'throttle', names=['throttle', 'throttle', 'massflow', 'vehicle_acceleration_body_norm', 'thrust_force_body1'], burning=True)
    # the number of tries left does not depend on earlier phases
    for i in range(60 * n):
        rng = cs.rng('twice', i)
        ps = [path_phase(rng) for _ in range(rng.choice([2, 3, 4]))]
        cs.put('path', phases=ps)


def c05(cs, n):
    long_paths(cs, 4 * n)
    paths(cs, 400 * n)
    random_missions(cs, 150 * n, ['state:C05'], tag='a')
    random_missions(cs, 100 * n, ['sim'], tag='b', phases=lambda r: r.choice([2, 3, 4, 6]))
    # a whole number of steps
    for i in range(120 * n):
        rng = cs.rng('whole', i)
        m = gen.mission(rng, phases=rng.choice([1, 2, 3]), limit=0, atm=rng.random() < 0.3, steps=3)
        h = rng.choice([rnd(rng, 0.01, 3, 17), 1 / 3, 0.1, 0.7, rnd(rng, 2e-3, 0.1, 17), logu(rng, 3e-3, 1e3)])
        k = rng.choice([1, 2, 3, 5, 10, 30, 100])
        if i % 40 == 0:
            k = rng.choice([500, 1000, 3000])
        if h * k > 3e3:
            h = rnd(rng, 0.01, 1, 17)
        m[-1]['stepsize'] = h
        m[-1]['end_criterion'] = ['time_since_event', k * h]
        cs.put('state:C05', mission=gen.keep_mass(m))
    # steps that end by any variable, of any size
    crossings(cs, 60 * n, tag='x')
    turns(cs, 30 * n)
    chains(cs, 80 * n)
    chains(cs, 40 * n, 'quantities', names=['mass', 'propellant_mass', 'time', 'altitude'])
    for name in ('time', 'time', 'altitude', 'velocity_norm', 'propellant_mass'):
        crossings(cs, 12 * n, tag='x' + name, name=name, phases=2)
    # short last steps, then phases that set no step size
    for i in range(80 * n):
        rng = cs.rng('c', i)
        m = gen.mission(rng, phases=rng.choice([3, 4]), limit=0, atm=False)
        for c in m[1:]:
            if rng.random() < 0.7:
                c.pop('stepsize', None)
        h = 1.
        for c in m:
            h = c.get('stepsize', h)
            c['end_criterion'] = ['time_since_event', float('%.6g' % (h * (rng.randrange(0, 4) + rng.choice([0.01, 0.5, 0.99, 1.]))))]
        cs.put('sim' if i % 3 else 'out', mission=gen.keep_mass(m))


def mass_missions(cs, n, kind, tag):
    for i in range(n):
        rng = cs.rng(tag, i)
        k = rng.choice([2, 3, 4])
        m = []
        for j in range(k):
            c = {'vehicle': {}, 'end_criterion': gen.clock_end(rng, 1., 5)}
            if j == 0:
                c['init'] = gen.init(rng)
                c['stepsize'] = 1.
            p = rng.randrange(4) if j else rng.choice([3, 3, 3, 1])
            if p & 1:
                c['vehicle']['structure_mass'] = rnd(rng, 200, 3000, 4)
            if p & 2:
                c['vehicle']['propellant_mass'] = rng.choice([rnd(rng, 0, 3000, 4), 0.])
            if j == 0 or rng.random() < 0.5:
                c['vehicle']['engines'] = gen.engines(rng, 1000.)
            if rng.random() < 0.25:
                c['max_acceleration'] = rng.choice([rnd(rng, 5, 30), -1, logu(rng, 1e-2, 10)])
            if rng.random() < 0.3:
                c['atmosphere'] = {'enabled': rng.random() < 0.7}
            if j and rng.random() < 0.2:
                c.pop('vehicle')
            m.append(c)
        cs.put(kind, mission=gen.keep_mass(m))


def c06(cs, n):
    mass_missions(cs, 350 * n, 'state:C06', 'mass')
    random_missions(cs, 120 * n, ['state:C06'], tag='a', limit=0.5)
    burns(cs, 40 * n, ('sim', 'state:C06'))
    # one of the masses next to nothing; staging, long after
    for i in range(60 * n):
        rng = cs.rng('ratio', i)
        dry = logu(rng, 1e-3, 1e6)
        prop = float('%.6g' % (dry * logu(rng, 1e-12, 1e12)))
        m = [quiet(alt=1e5, planet=rng.choice([STILL, FAST]), mass=dry)]
        m[0]['vehicle'].update(propellant_mass=prop, engines=gen.engines(rng, dry + prop) if rng.random() < 0.6 else [])
        wait = rng.choice([0., 1., logu(rng, 10., 1e6)])
        m[0]['stepsize'], m[0]['end_criterion'] = max(wait, 1e-3), ['time_since_event', wait]
        if wait > 10.:
            m[0]['planet_model'], m[0]['vehicle']['engines'] = STILL, []
        for j in range(rng.choice([1, 2])):
            v = {}
            if rng.random() < 0.7:
                v['structure_mass'] = float('%.6g' % (dry * logu(rng, 1e-6, 10.)))
            if rng.random() < 0.5:
                v['propellant_mass'] = float('%.6g' % (dry * logu(rng, 1e-9, 1e9)))
            m.append({'vehicle': v, 'stepsize': 1., 'end_criterion': ['time_since_event', rng.choice([0., 1.])]})
        cs.put('state:C06', mission=gen.keep_mass(m, 2e3))
    for i in range(30 * n):     # the flow over several steps
        rng = cs.rng('step', i)
        m = gen.mission(rng, phases=rng.choice([1, 2]), limit=0)
        cs.put('step', mission=m, n=rng.randrange(1, 5))


def steered(rng):
    """Several phases with all kinds of steering"""
    m = gen.mission(rng, phases=rng.choice([2, 3, 4]), steps=4, limit=0)
    w = World(6.9e6, 900., 1e4, 1)
    h = 1.
    for j, c in enumerate(m):
        h = c.get('stepsize', h)
        if j == 0 or rng.random() < 0.7:
            c['steering'] = {a: ([rng.choice(['time_since_event', 'time']), [rng.choice([0., rnd(rng, -20, 20), rnd(rng, -20, 20)]),
                                                                            rng.choice([0., 0., rnd(rng, -5, 5)]),
                                                                            rng.choice([0., 0., rnd(rng, -1, 1)])]]
                                 if rng.random() < 0.7 else gen.axis(rng, w))
                             for a in ('roll', 'yaw', 'pitch') if rng.random() < 0.6}
        c['end_criterion'] = gen.clock_end(rng, h, 4)
    return gen.keep_mass(m)


def c07(cs, n):
    for i in range(350 * n):
        cs.put('state:C07', mission=steered(cs.rng('a', i)))
    random_missions(cs, 100 * n, ['state:C07'], tag='b')
    for i in range(60 * n):
        cs.put('sim', mission=steered(cs.rng('c', i)))


def c08(cs, n):
    # limits near those at which something changes, found from a run without a limit
    ms, runs = [], {}
    for i in range(500 * n):
        rng = cs.rng('limit', i)
        m = gen.mission(rng, phases=rng.choice([1, 1, 2]), steps=3, limit=0, atm=rng.random() < 0.8)
        if rng.random() < 0.5:     # strong aerodynamic forces
            m[0]['atmosphere'] = {'enabled': True, 'wind': [rnd(rng, -900, 900) for _ in range(3)]}
            m[0]['init'] = dict(m[0]['init'], altitude=rnd(rng, 0, 2e4))
            for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff'):
                m[0]['vehicle'][f] = {'x': ['time', [0.]], 'data': [rnd(rng, -2, 2)]}
        if rng.random() < 0.12:    # aerodynamic forces along the thrust or at right angles to it
            f = rng.choice(['drag_coeff', 'drag_coeff', 'lift_coeff', 'side_force_coeff'])
            c = quiet(wind=[rng.choice([0., rnd(rng, -300, 300)]), 0., 0.], on=True, area=rnd(rng, 0.1, 9), mass=1000.,
                      **{f: {'x': ['time', [0.]], 'data': [rng.choice([1., -1.]) * rnd(rng, 0.1, 2)]}})
            if rng.random() < 0.2:
                c['atmosphere']['wind'] = [0., 0., rnd(rng, -300, 300)]
            c['vehicle']['engines'] = [{'incidence': [rng.choice([0., 0., math.pi]), 0.], 'thrust_vac': rnd(rng, 1e3, 5e4), 'isp_vac': 1e6, 'exit_area': 0.}]
            m = [c]
        if rng.random() < 0.15:    # nearly along the thrust, and more than it
            t = math.exp(rng.uniform(math.log(1e-4), math.log(1.)))
            p = rng.uniform(0, 2 * math.pi)
            m = [quiet(wind=[-rnd(rng, 50, 300), 0., 0.], on=True, area=rnd(rng, 0.1, 9), mass=1000., drag_coeff={'x': ['time', [0.]], 'data': [rnd(rng, 0.1, 2)]})]
            m[0]['steering'] = {'pitch': ['time', [90., 0., 0.]]} if rng.random() < 0.3 else {}
            m[0]['vehicle']['engines'] = [{'incidence': [t * math.cos(p), t * math.sin(p)], 'thrust_vac': float('%.3g' % logu(rng, 1e3, 5e6)), 'isp_vac': 1e6, 'exit_area': 0.}]
            if rng.random() < 0.7:      # against the flow or with it
                m[0]['atmosphere']['wind'] = [0., 0., 0.]
                d = rng.choice([-1, 1])
                m[0]['atmosphere']['wind'] = [d * rnd(rng, 50, 300), 0., rnd(rng, -5, 5)]
                m[0]['steering'] = {rng.choice(['pitch', 'yaw']): ['time', [rng.choice([90., -90., 0., 180.]) + rnd(rng, -9, 9), 0., 0.]]}
        if rng.random() < 0.12:    # lighter than the vehicle without propellant
            m[0]['vehicle']['propellant_mass'] = 0.
            e = gen.engines(rng, m[0]['vehicle']['structure_mass'])
            m[0]['vehicle']['engines'] = e
            f = sum(x['thrust_vac'] / x['isp_vac'] / 9.8 for x in e)
            if f > 0:
                h = float('%.3g' % (rng.uniform(0.1, 0.7) * m[0]['vehicle']['structure_mass'] / f))
                m = [dict(m[0], stepsize=h, end_criterion=['time_since_event', h]), {'stepsize': 1., 'end_criterion': ['time_since_event', 0.]}]
        for c in m:
            c.pop('max_acceleration', None)
        ms.append((m, rng))
        runs[i] = gen.probe(m, len(m))
    obs = judge.run(runs)
    for i, (m, rng) in enumerate(ms):
        s = judge.state_of(obs[i])
        if s is None:
            continue
        f = lambda x: [unbits(y) for y in s[x]]
        a, t, mass = f('aero_force_body'), f('thrust_force_body'), unbits(s['mass'])
        norm = lambda v: math.sqrt(sum(x * x for x in v))
        full = norm([x + y for x, y in zip(a, t)]) / mass
        aero = norm(a) / mass
        tt = sum(x * x for x in t)
        k = min(1., max(0., -sum(x * y for x, y in zip(a, t)) / tt)) if tt > 0 else 0.
        least = norm([x + k * y for x, y in zip(a, t)]) / mass
        x = rng.choice([full, full, aero, least, least, (full + least) / 2])
        lim = float('%.7g' % (x * rng.choice([1., 1.002, 0.998, 0.9, 1.1, 0.5, 0.99, 1.01, rng.uniform(0, 1.5), 1.0005,
                                                   1 - logu(rng, 1e-5, 1e-2), 1 + logu(rng, 1e-5, 1e-2)])))
        if not lim > 1e-9:
            lim = rng.choice([1e-3, 1., 20.])
        if rng.random() < 0.04:
            lim = rng.choice([-2., -1e-3, -0.5, -1e9, -lim, -1.0000001])
        cs.put('limit', mission=m[:-1] + [dict(m[-1], max_acceleration=lim)])
        if i % 4 == 0 and full > least:
            cs.put('state:C08', mission=m[:-1] + [dict(m[-1], max_acceleration=float('%.5g' % (least + (full - least) * rng.uniform(0.1, 1.2))))])
    random_missions(cs, 150 * n, ['state:C08'], tag='a', limit=0.7)
    random_missions(cs, 80 * n, ['sim'], tag='b', limit=1., phases=lambda r: r.choice([1, 2, 3, 4]))
    burns(cs, 60 * n, ('state:C08', 'sim'))


def flow(rng, mission=None):
    """Air flow from any direction onto a body in any attitude"""
    d = rng.choice([[rng.gauss(0, 1) for _ in range(3)], rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1],
                    [1, 0, 1], [1, 0, -1], [-1, 0, 1], [-1, 0, -1], [1, 1, 0], [0, 1, 1], [1, -1, 1e-3]])])
    v = rng.choice([300., 20., rnd(rng, 1, 2000)])
    return [float('%.5g' % (v * x)) for x in d]


def aero_mission(rng, tables=None):
    c = quiet(lat=rng.choice([0., 0., rnd(rng, -80, 80)]), long=rng.choice([0., 0., rnd(rng, -180, 180)]),
              az=rng.choice([0., 90., rnd(rng, 0, 360)]), alt=rng.choice([1000., rnd(rng, 0, 5e4)]), wind=flow(rng), on=True,
              area=rng.choice([1., rnd(rng, 0.1, 100)]), mass=1e12)
    c['stepsize'], c['end_criterion'] = 1., ['time_since_event', rng.choice([0., 1., 2.5])]
    if rng.random() < 0.8:
        c['steering'] = {a: [rng.choice(['time', 'time_since_event']),
                             [rng.choice([rnd(rng, -180, 180), 90., -90., 180., 45.]), 0., 0.]]
                         for a in ('roll', 'yaw', 'pitch') if rng.random() < 0.6}
    for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff'):
        p = tables[f] if tables else rng.randrange(4)
        if p == 1:
            c['vehicle'][f] = {'x': [rng.choice(TABLE), []], 'data': []}
        elif p == 2:
            c['vehicle'][f] = {'x': ['time', [0.]], 'data': [rnd(rng, -2, 2)]}
        elif p == 3:
            n = rng.choice(['alpha', 'alpha', 'mach_number', 'euler_angles_pitch', 'dynamic_pressure', 'velocity_atmosphere_norm'])
            s = {'alpha': 1.6, 'mach_number': 4., 'euler_angles_pitch': 3., 'dynamic_pressure': 1e5}.get(n, 1000.)
            c['vehicle'][f] = {'x': [n, [-s, 0., s]], 'data': [rnd(rng, -2, 2), rnd(rng, -2, 2), rnd(rng, -2, 2)]}
    return [c]


def c09(cs, n):
    for i, p in enumerate(itertools.product(range(4), repeat=3)):
        for j in range(6 * n):
            cs.put('state:C09', mission=aero_mission(cs.rng('t', i, j), dict(zip(('drag_coeff', 'lift_coeff', 'side_force_coeff'), p))))
    for i in range(150 * n):
        cs.put('state:C09', mission=aero_mission(cs.rng('r', i)))
    random_missions(cs, 120 * n, ['state:C09'], tag='a', atm=lambda r: r.random() < 0.9)
    # tables come and go from phase to phase
    for i in range(80 * n):
        rng = cs.rng('m', i)
        m = aero_mission(rng)
        for _ in range(rng.choice([1, 2])):
            o = aero_mission(rng)[0]
            m.append({'vehicle': {f: o['vehicle'][f] for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff')
                                  if f in o['vehicle'] and rng.random() < 0.6}, 'end_criterion': ['time_since_event', 1.]})
        cs.put('state:C09', mission=m)


def big_table(rng, defect=None):
    """A tree of a larger table, well-formed or with one defect somewhere"""
    d = rng.choice([1, 2, 3])
    size = [rng.choice([1, 2, 3, 4, 6]) for _ in range(d)]
    if rng.random() < 0.3:      # a long one
        size[rng.randrange(d)] = rng.choice([7, 8, 9, 12, 16, 17, 20, 32, 33, 40] + ([64, 65, 100] if d == 1 else []))
    if defect in (None, 'order') and rng.random() < (0.4 if defect else 0.15):      # nothing in one dimension
        for _ in range(rng.choice([1, 1, 2])):
            size[rng.choice([0, rng.randrange(d)])] = 0
    args = [[[rng.choice(NAMES)], sorted(rng.sample(range(-99, 99), s))] for s in size]
    if rng.random() < 0.4:      # fractions, far apart or close together
        k = rng.choice([1e-9, 0.001, 0.37, 1e7, 1e-17, 1e-100, 1e200])
        args = [[n, [x * k for x in a]] for n, a in args]
    elif rng.random() < 0.1:    # neighbours
        for a in args:
            for i in range(1, len(a[1])):
                if rng.random() < 0.5:
                    a[1][i] = a[1][i - 1] + abs(a[1][i - 1]) * 1e-12 + 1e-250

    for a in args:      # zeros, of either sign
        if rng.random() < 0.2:
            z = [x for x in a[1] if x != 0] + rng.choice([[0.], [-0.]])
            a[1] = sorted(z)[:len(a[1])]
    if defect == 'order' and rng.random() < 0.15:
        a = rng.choice(args)
        if len(a[1]) > 1:
            neg = sorted(x for x in a[1] if x < 0)
            pos = [x for x in a[1] if x > 0]
            a[1] = (neg + [-0., 0.] + pos)[max(0, len(neg) + 2 - len(a[1])):][:len(a[1])]
            defect = None

    def data(i):
        return [data(i + 1) for _ in range(size[i])] if i < d else rng.randrange(-99, 99)
    t = data(0)
    if defect == 'order':
        a = rng.choice([x for x in args if len(x[1]) > 1] or args)[1]
        if len(a) > 1:
            j = rng.randrange(len(a) - 1)
            q = rng.randrange(8)
            if q == 0:
                a.reverse()
            elif q == 1:
                rng.shuffle(a)
            elif q == 2:
                a[:] = a[j + 1:] + a[:j + 1]
            elif q == 3:
                a[0], a[-1] = a[-1], a[0]
            else:
                a[j], a[j + 1] = rng.choice([(a[j + 1], a[j]), (a[j], a[j]), (a[j + 1], a[j + 1])])
    elif defect:
        x = t
        for _ in range(rng.randrange(d)):
            x = rng.choice(x)
        if defect == 'less':
            x.pop(rng.randrange(len(x)))
        elif defect == 'more':
            x.insert(rng.randrange(len(x) + 1), json.loads(json.dumps(rng.choice(x))))
        elif defect == 'deep':
            x[rng.randrange(len(x))] = [0]
        elif defect == 'shallow':
            x[rng.randrange(len(x))] = 0
        elif defect == 'empty':
            x[rng.randrange(len(x))] = []
        elif defect == 'arg':
            a = rng.choice(args)[1]
            if rng.random() < 0.5:
                a.pop()
            else:
                a.append(100)
        elif defect == 'argdata':        # an argument left empty, data as it is or emptied
            rng.choice(args)[1].clear()
    o = {k: [a[0][0], a[1]] for k, a in zip('xyz', args)}
    o['data'] = t
    ms = list(o.items())
    rng.shuffle(ms)
    return docs.tree(dict(ms))


def holder(i, t):
    """The tree of a small mission with the table tree in one of several places"""
    f = ('drag_coeff', 'lift_coeff', 'side_force_coeff')[i % 3]
    v = ['obj', [['vehicle', ['obj', [[f, t]]]]]]
    first = docs.tree({'init': docs.INIT, 'end_criterion': ['time', 0.]})
    if i // 3 % 2:
        return ['arr', [first, v]]
    return ['arr', [['obj', first[1] + v[1]]]]


def c10(cs, n):
    for i, t in enumerate(docs.tables()):
        if n > 1 or i % 2 == cs.seed % 2 or len(json.dumps(t)) < 250:
            cs.put('load', tree=holder(i, t), loadonly=True)
    for i in range(1500 * n):
        rng = cs.rng('big', i)
        cs.put('load', loadonly=True, tree=holder(rng.randrange(6), big_table(rng, rng.choice(
            [None, None, None, 'order', 'order', 'less', 'more', 'deep', 'shallow', 'empty', 'arg', 'argdata']))))


def c11(cs, n):
    """Tables of the air flow, which the wind makes whatever is wanted"""
    axes = ['velocity_atmosphere1', 'velocity_atmosphere2', 'velocity_atmosphere3']
    sizes = [(a,) for a in range(1, 6)] + [(a, b) for a in range(1, 5) for b in range(1, 5)] + \
            [(a, b, c) for a in range(1, 4) for b in range(1, 4) for c in range(1, 4)]
    for i in range(1100 * n):
        rng = cs.rng('t', i)
        grids = {}
        v = {}
        long = rng.random() < 0.1
        for a in axes:      # common to the three tables, so that the wind can pick places
            k = 7 if not long else rng.choice([12, 16, 17, 25, 40])
            xs = sorted(rng.sample(range(-90, 90), k))
            grids[a] = [float(x * 3) for x in xs]
            if rng.random() < 0.2:      # segments of very different lengths
                x = grids[a][0]
                for j in range(k):
                    grids[a][j] = x = float('%.9g' % (x + logu(rng, 3e-3, 100)))
            if long and rng.random() < 0.4:     # far longer, and unevenly spaced
                k, e = rng.choice([65, 100, 130, 200, 257]), rng.choice([0.25, 1., 2., 4., 8.])
                lo, w = rng.uniform(-300, 0), rng.uniform(100, 600)
                xs = sorted({float('%.9g' % (lo + w * (j / k)**e)) for j in range(k)})
                grids[a] = xs if rng.random() < 0.7 else sorted({float('%.9g' % (2 * lo + w - x)) for x in xs})
        sel = {}
        vehicle = {}
        for j, f in enumerate(('drag_coeff', 'lift_coeff', 'side_force_coeff')):
            size = sizes[(i * 3 + j) % len(sizes)] if rng.random() < 0.7 else rng.choice(sizes)
            order = rng.sample(axes, len(size))
            if long:
                size = list(size)
                d = rng.randrange(len(size))
                size[d] = rng.choice([len(grids[order[d]]), rng.randrange(5, len(grids[order[d]]) + 1)])
            t = {}
            for d, (a, s) in zip('xyz', zip(order, size)):
                lo = rng.randrange(0, len(grids[a]) - s + 1)
                t[d] = [a, grids[a][lo:lo + s] if rng.random() < 0.7 else sorted(rng.sample(grids[a], s))]
                sel.setdefault(a, []).append(t[d][1])

            def data(dims):
                return [data(dims[1:]) for _ in range(dims[0])] if dims else rnd(rng, -2, 2, 4)
            t['data'] = data(size)
            if rng.random() < 0.2:
                t['interpolator'] = 'linear'
            vehicle[f] = t
        for a in axes:
            g = rng.choice(sel.get(a) or [grids[a]])
            p = rng.randrange(7)
            if p <= 1:
                x = rng.choice(g)
            elif p == 2:
                x = g[0] - rng.choice([1., 0.1, 50., 1e-3])
            elif p == 3:
                x = g[-1] + rng.choice([1., 0.1, 50., 1e-3])
            else:
                j = rng.randrange(len(g))
                b = g[j + 1] if j + 1 < len(g) else g[j] + 10
                x = g[j] + (b - g[j]) * rng.choice([rng.random(), 0.5, 1e-6, 1 - 1e-6])
            v[a] = float('%.10g' % x)
        if max(map(abs, v.values())) < 1.:
            v[axes[0]] = 1.
        c = quiet(wind=[-v[a] for a in axes], on=True, alt=0., **vehicle)
        cs.put('state:C11', mission=[c])
    random_missions(cs, 60 * n, ['state:C11'], tag='a', atm=True)
    # moving through a table, in one phase
    for i in range(120 * n):
        rng = cs.rng('through', i)
        c = aero_mission(rng)[0]
        for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff'):
            k = rng.choice([2, 3, 10, 20])
            c['vehicle'][f] = {'x': [rng.choice(['time', 'time_since_event']), sorted(rng.sample(range(0, 60), k))],
                               'data': [rnd(rng, -2, 2, 4) for _ in range(k)]}
        if rng.random() < 0.4:      # one table only
            for f in rng.sample(('drag_coeff', 'lift_coeff', 'side_force_coeff'), 2):
                c['vehicle'][f] = {'x': ['time', []], 'data': []}
        h = rng.choice([0.5, 1., 3.])
        if rng.random() < 0.5:
            for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff'):
                t = c['vehicle'][f]
                if not t['data']:
                    continue
                xs = sorted({h * j + rng.choice([0., 1, -1]) * h * logu(rng, 1e-7, 0.3) for j in rng.sample(range(0, 12), rng.choice([2, 4, 8]))})
                t['x'][1], t['data'] = xs, [rnd(rng, -2, 2, 4) for _ in xs]
        m = [dict(c, end_criterion=['time_since_event', rng.choice([rnd(rng, 0, 30), h * rng.randrange(0, 12)])], stepsize=h)]
        for _ in range(rng.choice([0, 1, 2])):
            m.append({'end_criterion': ['time_since_event', rnd(rng, 0, 20)]})
        cs.put('state:C11', mission=m)


def texts(cs):
    """Texts that are no configurations, from a small one that is"""
    base = json.dumps([{'init': docs.INIT, 'vehicle': {'engines': [docs.ENGINE], 'drag_coeff': docs.T1}, 'stepsize': 0.5}])
    for i in range(len(base)):
        yield base[:i]
    for t in (base + ']', base + ' x', base + base, base + ',', ',' + base, base[1:-1], '{"phases": %s}' % base, '[%s,]' % base[1:-1],
              '[,%s]' % base[1:-1], base.replace('1.0', 'NaN', 1), base.replace('1.0', 'Infinity', 1), base.replace('"', "'"),
              '// comment\n' + base, '/* */' + base, '# comment\n' + base, base.replace(':', '=', 1), base.replace('0.5', '.5', 1),
              base.replace('0.5', '+0.5', 1), base.replace('0.5', '0x5', 1), base.replace('0.5', '5.', 1), base.replace('0.5', '1,5', 1),
              'null', '0', '"x"', 'true', '{}', '""', '[[]]', '[null]', '[0]', '[[%s]]' % base, ' ', '\n', '\0', base + '\0',
              base.replace('init', 'in\xefit'), base.replace('init', 'init\xff'), '\xff\xfe' + base, base.replace('"stepsize"', 'stepsize')):
        yield t


def c12(cs, n):
    bases = docs.BASES
    muts = docs.mutants()
    for t, v in muts:
        cs.put('load', tree=t, text=docs.text(t), loadonly=not no_start(t))
    if n >= 10:
        for t, v in docs.mutants(docs.BASES[:2], 2)[:60000]:
            cs.put('load', tree=t, text=docs.text(t), loadonly=not no_start(t))
    for t in docs.misspelt(cs.rng('spelt'), 14 * n if n < 10 else 0):
        cs.put('load', tree=t, loadonly=True)
    ts = list(texts(cs))
    for t in ts:
        cs.put('load', tree=['none'], raw=t)
    for i, size in enumerate((2e4, 7e4, 7e4, 3e5, 1.2e6)):      # large files, right or wrong in the last place
        for wrong in (False, True):
            cs.put('load', tree=large(cs.rng('large', i), size, wrong), loadonly=True)
    cs.put('load', tree=['none'], missing=True)
    cs.put('load', tree=['none'], path='/')
    cs.put('load', tree=['none'], path='no/such/folder/file.json')
    # the command line tool
    rng = cs.rng('cli')
    for t, v in rng.sample([m for m in muts if m[1] == 'no'], 150 * n) + rng.sample([m for m in muts if m[1] == 'yes'], 100 * n):
        if stays(t):
            cs.put('cli', tree=t)
    for t in ts:
        cs.put('cli', tree=['none'], raw=t)
    for args in ([], ['--config'], ['@'], ['--config', '/'], ['--config', 'no such file'], ['--config', ''], ['--conf', '@'],
                 ['--config', '@', 'x'], ['--config', '@', '--config', '@'], ['--other', '@']):
        cs.put('cli', tree=['none'], args=args)
    random_cli(cs, 40 * n)


def large(rng, size, wrong):
    """The tree of a large configuration"""
    ps = [p for b in docs.BASES for p in b if p]
    out, n = [], 0
    while n < size:
        p = dict(rng.choice(ps))
        if rng.random() < 0.01:
            k = 300
            p['vehicle'] = {'lift_coeff': {'x': ['mass', [float(j) for j in range(k)]], 'data': [rnd(rng, -2, 2, 4) for _ in range(k)]}}
        out.append(p)
        n += len(json.dumps(p))
    last = dict(docs.BASES[0][0])
    if wrong:
        last = dict(last, **rng.choice([{'unknown': 1.}, {'stepsize': 'x'}, {'vehicle': {'drag_coeff': {'x': ['time', [1., 0.]], 'data': [1., 2.]}}}]))
    return docs.tree(out + [last])


def no_start(t):
    """No initialisation in the first phase (so that running it is safe)"""
    return t[0] == 'arr' and t[1] and t[1][0][0] == 'obj' and not any(k == 'init' and v[0] != 'null' for k, v in t[1][0][1])


def stays(t):
    """Running it ends soon, whatever the mutation did"""
    s = json.dumps(t)
    return len(s) < 100000


def random_cli(cs, n):
    for i in range(n):
        rng = cs.rng('run', i)
        m = gen.mission(rng, limit=0.3)
        if i % 4 == 0:
            m[0]['max_acceleration'] = rng.choice([1e-3, 0.1])
        if i % 7 == 3:
            m[0].pop('init')
        cs.put('cli', mission=m)


def c13(cs, n):
    lats = [0., 90., -90., 45., -45., 28.5, 89.999, -0.001, 60., -89.]
    longs = [0., 90., 180., -180., 279.4, -90., 360., 33.3]
    alts = [0., 0., 1e3, -300., 1e5, 1e6, -5e4, 1e8, -1e6, -1e-3, 0.25]
    planets = [None, 'spherical', 'fisher_1960', 'smithsonian', FAST] + [
        {'custom': {'equatorial_radius': 6e6, 'polar_radius': p, 'gravitational_parameters': [g, 0., 0., 0.], 'rotation_rate': w}}
        for p, g, w in ((6e6, 0., 0.), (4e6, 1e14, 1e-3), (7e6, 1e14, -1e-4), (5.9e6, 0., 2e-4))]
    for i, (la, lo, p) in enumerate(itertools.product(lats, longs, planets)):
        if n < 2 and i % 2 != cs.seed % 2:
            continue
        c = quiet(la, lo, (i * 37) % 360, alts[i % len(alts)], on=bool(i % 3), wind=[0., 0., 0.] if i % 3 else None, mass=100.)
        c.pop('planet_model')
        if p is not None:
            c['planet_model'] = p
        cs.put('state:C13', mission=[c])
    for i in range(300 * n):
        rng = cs.rng('r', i)
        cs.put('state:C13', mission=[dict(gen.mission(rng, phases=1, limit=0, custom=0.6)[0])])


def c14(cs, n):
    for i in range(500 * n):
        rng = cs.rng('p', i)
        p = gen.planet(rng, 0.5)
        re = gen.planet_data(p)[0]
        alt = rng.choice([0., -0.2 * re, rnd(rng, 0, 0.1) * re, rnd(rng, 0, 1) * re, logu(rng, 1, 300) * re])
        lat = rng.choice([0., 90., -90., rnd(rng, -90, 90), rnd(rng, -90, 90), 45., -45.])
        c = quiet(lat, rng.choice([0., 90., rnd(rng, -180, 180)]), 0., float('%.6g' % alt), planet=p, mass=100.)
        if rng.random() < 0.3:
            c['end_criterion'] = ['time_since_event', 3.]
        if rng.random() < 0.2:    # the planet may change
            cs.put('state:C14', mission=[c, {'planet_model': rng.choice(['spherical', 'fisher_1960', 'smithsonian', FAST]),
                                             'end_criterion': ['time_since_event', 0.]}])
        else:
            cs.put('state:C14', mission=[c])
    # mirrored north and south, turned about the axis
    for i in range(60 * n):
        rng = cs.rng('m', i)
        p = rng.choice(['smithsonian', 'fisher_1960', FAST])
        lat, alt = rnd(rng, 0, 90), rnd(rng, 0, 1e6)
        for s, lo in ((1, 0.), (-1, 0.), (1, 77.), (-1, 200.)):
            cs.put('state:C14', mission=[quiet(s * lat, lo, 0., alt, planet=p, mass=100.)])
    random_missions(cs, 60 * n, ['state:C14'], tag='a', custom=0.5)


LAYERS = [0., 11000., 20000., 32000., 47000., 52000., 61000., 79000., 88743., 98451., 108129., 117777., 146542., 156071., 165572.,
          184485., 221968., 286478., 376315., 463530., 548235., 630536.]


def c15(cs, n):
    r = 20925741 * .3048
    alts = []
    for h in LAYERS:
        for d in (-2e3, -50., -1., -1e-3, 1e-3, 1., 30., 500., 3e3):
            alts.append(h + d)
    for i, h in enumerate(alts):
        for j in range(2 * n):
            rng = cs.rng('l', i, j)
            z = r * h / (r - h)
            c = quiet(rng.choice([0., rnd(rng, -90, 90)]), 0., 0., float('%.9g' % z), planet=rng.choice(['spherical', 'spherical', 'smithsonian']),
                      wind=[rnd(rng, -300, 300), rnd(rng, -300, 300), rnd(rng, -300, 300)] if rng.random() < 0.7 else None,
                      on=rng.random() < 0.95, mass=100.)
            cs.put('state:C15', mission=[c])
    for i in range(350 * n):
        rng = cs.rng('r', i)
        p = gen.planet(rng, 0.3)
        c = quiet(rnd(rng, -90, 90), 0., 0., rng.choice([rnd(rng, -5e3, 1e5), rnd(rng, 0, 9e5), rnd(rng, 8e4, 3e5)]), planet=p,
                  wind=gen.wind(rng, rng.choice([500, 500, 1e4])), on=rng.random() < 0.9, mass=1e5)
        if isinstance(p, dict):
            c['init']['altitude'] = float('%.6g' % min(c['init']['altitude'], p['custom']['equatorial_radius'] * 5))
        if rng.random() < 0.5:
            c['vehicle']['drag_coeff'] = {'x': ['time', [0.]], 'data': [1.]}
        if rng.random() < 0.3:
            c['end_criterion'] = ['time_since_event', 2.]
        m = [c]
        for _ in range(rng.choice([0, 0, 1, 2])):
            m.append({'atmosphere': rng.choice([{'enabled': True}, {'enabled': False}, {'wind': gen.wind(rng)}, {}]),
                      'end_criterion': ['time_since_event', rng.choice([0., 1.5])]})
            if rng.random() < 0.3 and isinstance(p, dict):     # suddenly another speed over the ground
                m[-1]['planet_model'] = {'custom': dict(p['custom'], rotation_rate=rng.choice([0., 1e-3, -2e-3]))}
        cs.put('state:C15', mission=m)
    random_missions(cs, 80 * n, ['state:C15'], tag='a')


def c16(cs, n):
    angles = ([0., 0., 0.], [180., 0., 0.], [0., 180., 0.], [0., 0., 180.], [90., 0., 0.], [0., 90., 0.], [0., 0., 90.], [180., 90., 0.],
              [90., 90., 90.], [0., 0., -90.], [180., 0., 1e-6], [0., 1e-7, 180.], [45., 180., 0.], [30., 40., 50.], [-30., 20., 100.])
    i = 0
    for lat in (0., 90., -90., 45., -30.):
        for long in (0., 90., 180., -90., 45.):
            for az in (0., 90., 180., 270., 45.):
                for a in angles:
                    i += 1
                    if n < 2 and (i * 7 + cs.seed) % 3:
                        continue
                    m = [{'init': {'latitude': lat, 'longitude': long, 'azimuth': az, 'altitude': 1000.},
                          'vehicle': {'structure_mass': 100., 'propellant_mass': 10.,
                                      'engines': [{'incidence': [.1, .2], 'thrust_vac': 500., 'isp_vac': 300., 'exit_area': 0.}]},
                          'steering': {x: ['time', [y, 0., 0.]] for x, y in zip(('roll', 'yaw', 'pitch'), a)},
                          'end_criterion': ['time', 1.]}]
                    cs.put('state:C16', mission=m)
    for i in range(250 * n):
        rng = cs.rng('r', i)
        m = gen.mission(rng, phases=rng.choice([1, 2]), limit=0.2)
        for c in m:
            c['steering'] = {a: ['time', [rnd(rng, -180, 180), 0., 0.]] for a in ('roll', 'yaw', 'pitch') if rng.random() < 0.7}
        cs.put('state:C16', mission=m)
    for i in range(100 * n):
        cs.put('state:C16', mission=aero_mission(cs.rng('f', i)))


def c17(cs, n):
    for i in range(350 * n):
        rng = cs.rng('t', i)
        rate = rng.choice([7.29211e-5, math.pi / rng.choice([1e4, 2e4, 3e4]), rnd(rng, -1, 1) * 1e-2, 0., -1e-4])
        h = rng.choice([1e4, 1e3, 10., 100., 1e5, 1e6])
        t = rng.choice([h, 3 * h, 2.4 * h, math.pi / abs(rate) if rate and math.pi / abs(rate) < 2e5 else h])
        h = max(h, t / 30)
        re = rng.choice([6.4e6, 1e6])
        p = {'custom': {'equatorial_radius': re, 'polar_radius': rng.choice([re, 0.9 * re, 1.05 * re]),
                        'gravitational_parameters': [rng.choice([0., 1e9, 1e11]), 0., 0., 0.], 'rotation_rate': rate}}
        c = quiet(rnd(rng, -90, 90), rng.choice([0., 180., rnd(rng, -180, 180)]), 0.,
                  rng.choice([0., rnd(rng, -0.1, 3) * re]), planet=p, wind=gen.wind(rng, 100), on=rng.choice([None, False]),
                  mass=100.)
        c['stepsize'], c['end_criterion'] = h, ['time_since_event', t]
        m = [c]
        if rng.random() < 0.3:
            m.append({'planet_model': rng.choice(['smithsonian', 'fisher_1960']) if rng.random() < 0.5 else
                      {'custom': dict(p['custom'], rotation_rate=rate / 2)},
                      'atmosphere': {'wind': gen.wind(rng)}, 'end_criterion': ['time_since_event', 1.5 * h]})
        cs.put('state:C17', mission=m)
    random_missions(cs, 250 * n, ['state:C17'], tag='a', custom=0.6)


def c18(cs, n):
    # end criteria
    runs, plan = {}, []
    for v in NAMES:
        for j in range(3 * n):
            rng = cs.rng('e', v, j)
            m = rich(rng, limit=0.25)
            if v == 'throttle' or (j % 3 == 2 and v == 'massflow'):
                m['max_acceleration'] = rnd(rng, 6, 9)
            k = rng.randrange(0, 3)
            plan.append((v, m, k, rng))
            for x in (k, k + 1):
                runs[len(plan) - 1, x] = at([m], x * m['stepsize'])
    obs = judge.run(runs)
    for i, (v, m, k, rng) in enumerate(plan):
        a, b = judge.state_of(obs[i, k]), judge.state_of(obs[i, k + 1])
        if a is None or b is None:
            continue
        x, y = value_of(a, v), value_of(b, v)
        t = float('%.9g' % (x + (0.3 + 0.6 * rng.random()) * (y - x)))
        m = [dict(m, end_criterion=[v, t])]
        cs.put('sim', mission=m)
        cs.put('state:C18', mission=m)
    # steering and tables
    for v in NAMES:
        for j in range(n):
            rng = cs.rng('s', v, j)
            w = World(6.9e6, 900., 2e4, 1)
            m = rich(rng, limit=0.25)
            s = w.scale(v)
            m['steering'][('roll', 'yaw', 'pitch')[(NAMES.index(v) + j) % 3]] = [v, [float('%.4g' % (rng.choice([-1, 1]) * 30 / s)), 0., 0.]]
            m['end_criterion'] = ['time_since_event', 2.5 * m['stepsize']]
            cs.put('state:C18', mission=[m])
            cs.put('sim', mission=[m])
            for d in 'xyz':
                rng = cs.rng('t', v, j, d)
                m = rich(rng, limit=0.15)
                s = w.scale(v)
                f = rng.choice(['drag_coeff', 'lift_coeff', 'side_force_coeff'])
                others = [['time', [0., 50.]], ['alpha', [-2., 2.]]]
                rng.shuffle(others)
                args = others[:'xyz'.index(d)] + [[v, [-s, s]]] + others['xyz'.index(d):]
                args = args[:rng.randrange('xyz'.index(d), 3) + 1]

                def data(i):
                    return [data(i + 1) for _ in range(2)] if i < len(args) else rnd(rng, -2, 2, 4)
                m['vehicle'][f] = dict(zip('xyz', args), data=data(0))
                m['end_criterion'] = ['time_since_event', 1.5 * m['stepsize']]
                cs.put('state:C18', mission=[m])
                if j == 0:
                    cs.put('sim', mission=[m])


def c19(cs, n):
    for i in range(450 * n):
        rng = cs.rng('s', i)
        m = [rich(rng, limit=0.2)] if rng.random() < 0.4 else gen.mission(rng, phases=rng.choice([1, 1, 2, 3]), limit=0.15)
        if rng.random() < 0.3:      # long steps: all four stages count
            m[-1]['stepsize'] = rng.choice([rnd(rng, 10, 60), logu(rng, 50, 1e3)])
            m = gen.keep_mass(m, 100. + 4 * m[-1]["stepsize"])
        if rng.random() < 0.12:     # short ones, and turns to match
            h = logu(rng, 1e-6, 1e-2)
            m[-1]['stepsize'] = h
            m[-1]['steering'] = {a: [rng.choice(['time_since_event', 'time_since_event', 'time']), [float('%.3g' % (rng.uniform(-30, 30) / h)), 0., 0.]]
                                 for a in ('roll', 'yaw', 'pitch')}
        c = {'mission': m, 'n': rng.randrange(1, 4)}
        if rng.random() < 0.3:
            c['part'] = float('%.4g' % rng.uniform(0.05, 1))
        cs.put('step', **c)
    random_missions(cs, 80 * n, ['sim'], tag='a', limit=0)
    # forces that come and go: none but those of the air, by tables that are zero at times
    for i in range(150 * n):
        rng = cs.rng('f', i)
        h = rng.choice([1., 5., 20., rnd(rng, 0.5, 60)])
        c = quiet(rnd(rng, -90, 90), rnd(rng, -180, 180), rnd(rng, 0, 360), rng.choice([0., 3e3, 2e4]), on=True, wind=gen.wind(rng, 90),
                  mass=float('%.3g' % logu(rng, 1e2, 1e4)), planet=STILL if rng.random() < 0.8 else
                  {'custom': dict(STILL['custom'], rotation_rate=rng.choice([1e-6, -1e-5]))})
        k = rng.choice([2, 3, 4])
        for f in rng.sample(['drag_coeff', 'lift_coeff', 'side_force_coeff'], rng.choice([1, 1, 2, 3])):
            xs, ys = [0.], [0.]
            for _ in range(k):
                xs.append(xs[-1] + h * rng.choice([1., 2., 0.5, 0.25, 1e-3, rng.random() + 1e-3]))
                ys.append(rng.choice([0., 0., 0., rnd(rng, -1, 1, 3)]))
            if rng.random() < 0.3:
                ys[0] = rnd(rng, -1, 1, 3)
            c['vehicle'][f] = {'x': [rng.choice(['time', 'time_since_event']), xs], 'data': ys}
        if rng.random() < 0.3:
            c['vehicle']['engines'] = [{'incidence': [0., 0.], 'thrust_vac': 0., 'isp_vac': 100., 'exit_area': rng.choice([0., 0.01])}]
        c['stepsize'] = h
        d = {'mission': [c], 'n': rng.randrange(1, 5)}
        if rng.random() < 0.2:
            d['part'] = float('%.4g' % rng.uniform(0.05, 1))
        cs.put('step', **d)
    # motion that is cubic in time: no gravity, constant acceleration, no rotation
    for i in range(60 * n):
        rng = cs.rng('c', i)
        c = quiet(rnd(rng, -90, 90), rnd(rng, -180, 180), rnd(rng, 0, 360), 0., mass=1e4)
        c['vehicle']['engines'] = [{'incidence': [0., 0.], 'thrust_vac': 1e5, 'isp_vac': 1e12, 'exit_area': 0.}]
        c['stepsize'] = rng.choice([1., 100., 1e3])
        cs.put('step', mission=[c], n=rng.randrange(1, 4))


def c20(cs, n):
    for i in range(400 * n):
        rng = cs.rng('e', i)
        m = [quiet(rnd(rng, -90, 90), 0., 0., rng.choice([0., rnd(rng, -300, 5e4), rnd(rng, 0, 2e5)]), planet=rng.choice([STILL, 'smithsonian']),
                   on=rng.random() < 0.8, mass=1e6)]
        m[0]['vehicle']['propellant_mass'] = 1e6
        k = rng.choice([0, 1, 1, 2, 3, 4, 5])
        m[0]['vehicle']['engines'] = [dict(gen.engine(rng, 2e6, max(k, 1)), incidence=[rnd(rng, -3.2, 3.2), rng.choice([rnd(rng, -3.2, 3.2), 0.])])
                                      for _ in range(k)]
        if rng.random() < 0.2:       # mirrored, in rings
            m[0]['vehicle']['engines'] = [dict(e) for e in gen.cluster(rng, 2e6)]
        if rng.random() < 0.15:      # engines against each other, in part or altogether
            es = m[0]['vehicle']['engines'] = m[0]['vehicle']['engines'][:2] or [gen.engine(rng, 2e6)]
            for e in list(es):
                a, b = e['incidence']
                es.append(dict(e, incidence=[a + math.pi, -b], thrust_vac=e['thrust_vac'] * rng.choice([1., 1., 1., 0.5, 1.00001])))
        if rng.random() < 0.05:
            m[0]['vehicle']['engines'] *= 4
        for e in m[0]['vehicle']['engines']:
            e['exit_area'] = rng.choice([0., rnd(rng, 0, 20), rnd(rng, 0, 300)])
        if rng.random() < 0.4:
            m[0]['max_acceleration'] = rnd(rng, 3, 40)
        m[0]['end_criterion'] = gen.clock_end(rng, 1., 4)
        if rng.random() < 0.4:
            m.append({'vehicle': {'engines': gen.engines(rng, 2e6)}, 'end_criterion': gen.clock_end(rng, 1., 3)})
            if rng.random() < 0.5:
                m.append({'atmosphere': {'enabled': rng.random() < 0.5}, 'end_criterion': gen.clock_end(rng, 1., 3)})
        cs.put('state:C20', mission=gen.keep_mass(m))
    random_missions(cs, 150 * n, ['state:C20'], tag='a', limit=0.4)


def c21(cs, n):
    for i in range(250 * n):
        rng = cs.rng('o', i)
        m = gen.mission(rng, phases=rng.choice([1, 2, 3, 5]), steps=5, limit=0, absolute=0)
        cs.put('out', mission=m)
    for i in range(40 * n):     # numbers around zero and halves
        rng = cs.rng('z', i)
        c = quiet(rng.choice([0., 90.]), 0., 0., rng.choice([0., 0.5, -0.5, 0.4, -0.4, 1.5, 2.5]),
                  planet={'custom': dict(STILL['custom'], equatorial_radius=rng.choice([1., 2.5, 10.]), polar_radius=1.,
                                         rotation_rate=rng.choice([0., 0.1]))}, mass=10.)
        c['vehicle']['propellant_mass'] = rng.choice([0., 0.5, 1.5, 2.5, 0.4])
        c['stepsize'] = rng.choice([0.5, 1., 0.25])
        c['end_criterion'] = ['time_since_event', rng.choice([0., 2., 1.75])]
        cs.put('out', mission=[c])
    for i in range(12):         # many phases
        rng = cs.rng('many', i)
        cs.put('out', mission=gen.mission(rng, phases=12, steps=2, limit=0, atm=False, absolute=0))
    for i in range(2):          # very many
        ps = []
        for k in range(280):
            rng = cs.rng('very many', i, k)
            p = path_phase(rng) if k % 40 == 20 else {'step': 1., 'target': 0., 'knots': [0.], 'values': [0.]}
            ps.append(p)
        cs.put('path', phases=ps, most=3000)
    paths(cs, 250 * n)
    long_paths(cs, 4 * n)
    random_missions(cs, 60 * n, ['sim'], tag='a')
    random_cli(cs, 40 * n)


def sibling(rng, m):
    """Changes one thing about a mission"""
    c = m[0]
    what = rng.randrange(8)
    if what <= 1:
        re, rp, rate = gen.planet_data(c.get('planet_model'))      # of the same shape, so that it starts at the same place
        c['planet_model'] = {'custom': {'equatorial_radius': re, 'polar_radius': rp, 'gravitational_parameters':
                                        [rnd(rng, 1, 9) * re * re, 1e-3, rng.choice([0., 1e-2]), 0.],
                                        'rotation_rate': rng.choice([rate, 2 * rate])}}
    elif what == 2:
        c['atmosphere'] = dict(c.get('atmosphere') or {}, wind=gen.wind(rng, 90))
    elif what == 3:
        c['atmosphere'] = dict(c.get('atmosphere') or {}, enabled=not (c.get('atmosphere') or {}).get('enabled', False))
    elif what == 4:
        c['vehicle']['structure_mass'] = 2 * c['vehicle']['structure_mass']
    elif what == 5:
        c['init'] = dict(c['init'], azimuth=77.)
    elif what == 6:
        for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff'):
            c['vehicle'][f] = {'x': ['time', [0., 1.]], 'data': [rnd(rng, -1, 1), rnd(rng, -1, 1)]}
    else:
        c['steering'] = {'yaw': ['time', [rnd(rng, -20, 20), 0., 0.]], 'pitch': ['time', [rnd(rng, -20, 20), 0., 0.]]}


def c22(cs, n):
    # histories of loads and runs in one process
    hist = judge.histories(4 if n < 10 else 5)
    rng = cs.rng('h')
    many = rng.sample(hist, min(len(hist), 500 * n))
    sets = []
    for j in range(4 * n):
        r = cs.rng('set', j)
        good = judge.text_of(gen.mission(r, phases=r.choice([2, 3]), limit=0))
        other = judge.text_of(steered(r) if j % 2 else [dict(rich(r), end_criterion=['time', 7.3])])
        aborts = gen.mission(r, phases=2, limit=0)
        aborts[-1]['max_acceleration'] = 1e-6
        aborts[-1]['vehicle'] = {'engines': []}
        aborts[-1]['atmosphere'] = {'enabled': True, 'wind': [300., 200., 100.]}
        aborts[-1]['vehicle'].update(reference_area=50., drag_coeff={'x': ['time', [0.]], 'data': [3.]})
        aborts = judge.text_of(aborts)
        refused = good.replace('init', 'innit', 1)
        sets.append([good, other, aborts, refused])
        # missions that are alike but for one thing
        m = gen.mission(r, phases=r.choice([1, 2]), limit=0, atm=True)
        if j % 2:
            m = m[:1]
        a, b = json.loads(json.dumps(m)), json.loads(json.dumps(m))
        if r.random() < 0.6:
            a[-1]['end_criterion'] = ['time_since_event', 0.]
        for o in (b, json.loads(json.dumps(m))):
            sibling(r, o)
            texts = [judge.text_of(a), judge.text_of(o), aborts, refused]
            sets.append(texts)
    for i, h in enumerate(many):
        cs.put('ops', ops=h, texts=sets[i % len(sets)])
    # long histories of missions that have little in common, or almost everything; every fourth is refused
    for i in range(80 * n):
        rng = cs.rng('long', i)
        texts = []
        alike = [gen.mission(rng, limit=0.2, steps=4) if rng.random() < 0.4 else [dict(rich(rng), end_criterion=['time', 3.3])]
                 for _ in range(rng.choice([1, 2]))] if i % 5 >= 3 else None
        for a in alike or []:      # the earth, written out
            if rng.random() < 0.5:
                a[0]['planet_model'] = {'custom': dict(zip(('equatorial_radius', 'polar_radius', 'rotation_rate'), gen.planet_data(rng.choice(
                    ['spherical', 'fisher_1960', 'smithsonian']))), gravitational_parameters=[3.986e14, 1.08e-3, -2.5e-6, -1.6e-6])}
        for k in range(16):
            r = cs.rng('long', i, k)
            m = variant(r, r.choice(alike)) if alike else r.choice([lambda: gen.exotic(r, limit=0.3), lambda: gen.exotic(r, limit=0.3), lambda: gen.mission(r, limit=0.2, steps=4),
                          lambda: steered(r), lambda: [dict(rich(r), end_criterion=['time', 3.3])]])()
            t = docs.text(docs.tree(m), (',', ':'), r.shuffle) if r.random() < 0.3 else judge.text_of(m)
            if k % 4 == 3:
                t = r.choice([lambda: t[:r.randrange(1, len(t))], lambda: t.replace('"', "'"),
                              lambda: t.replace('end_criterion', 'end_criteria'), lambda: t + t])()
            texts.append(t)
        ops, at_ = [], {}
        for k in range(60):
            s = rng.choice([1, 1, 2, 3])
            if s not in at_ or rng.random() < 0.5:
                at_[s] = rng.randrange(1, 17)
                ops.append(['load', s, at_[s]])
                if at_[s] % 4 == 0:
                    del at_[s]
            else:
                ops.append(['run', s, at_[s]])
        cs.put('ops', ops=ops, texts=texts)
    # the command line tool in different worlds, on a file whose contents change
    for i in range(40 * n):
        rng = cs.rng('worlds', i)
        m = gen.mission(rng, limit=0.2, steps=4)
        o = json.loads(json.dumps(m))
        sibling(rng, o) if rng.random() < 0.7 else o[0]['init'].update(azimuth=77.)
        texts = [judge.text_of(m), judge.text_of(o) + rng.choice(['', ' ' * 9]),
                 judge.text_of([steered(rng), gen.exotic(rng, limit=0.2)][i % 2]), judge.text_of(m).replace('init', 'innit', 1)]
        k = len(texts[0]) - len(texts[1])     # as long as each other, sometimes
        texts = [texts[0] + ' ' * max(0, -k), texts[1] + ' ' * max(0, k)] + texts[2:] if rng.random() < 0.7 else texts
        w, steps = None, []
        for _ in range(9):
            w = rng.choice([x for x in range(5) if x != w])
            steps.append([w, rng.choice([1, 1, 2, 2, 3, 4])])
        cs.put('worlds', texts=texts, steps=steps, beside=rng.sample(
            ['config.json', 'post.json', 'default.json', '.post.json', 'a.json', 'z.json', 'm 0.draft', 'm 0.json.bak', 'm0.json',
             'm0.bak', 'm 0', '.m0', 'm0.cfg', 'm0.draft', 'm 0.json~', 'm0.json5', 'defaults.toml', 'm0.lock', 'm0.cache'], 9))
    # the same again, and written differently
    for i in range(200 * n):
        rng = cs.rng('s', i)
        m = gen.mission(rng, limit=0.2)
        t = docs.tree(m)
        a = docs.text(t)
        shuffled = docs.text(t, rng.choice([(',', ':'), (' ,\n\t', ' : '), ('\r\n,  ', ':\n')]), rng.shuffle)
        cs.put('same', texts=[a, shuffled], reps=3)
    random_cli(cs, 60 * n)
    for f in ('as is',):
        try:
            t = open(REPO_EXAMPLE).read()
            cs.put('same', texts=[t, docs.text(docs.tree(json.loads(t)))], reps=2)
        except (OSError, ValueError):
            pass


# missions with anything in them, judged for each property
EXOTIC = {'C01': {'state:C01': 200, 'prefix': 100, 'sim': 40}, 'C02': {'expand': 200, 'sim': 50}, 'C03': {'state:C03': 60, 'sim': 60},
          'C04': {'sim': 40}, 'C05': {'state:C05': 100, 'sim': 60}, 'C06': {'state:C06': 300}, 'C07': {'state:C07': 300, 'sim': 30},
          'C08': {'state:C08': 300}, 'C09': {'state:C09': 300}, 'C11': {'state:C11': 300}, 'C13': {'state:C13': 300},
          'C14': {'state:C14': 300}, 'C15': {'state:C15': 300}, 'C16': {'state:C16': 300}, 'C17': {'state:C17': 300},
          'C18': {'state:C18': 300, 'sim': 30}, 'C19': {'step': 200, 'sim': 40}, 'C20': {'state:C20': 300}, 'C21': {'out': 60, 'sim': 50},
          'C22': {'same': 60}}


def with_exotic(prop, own):
    def generate(cs, n):
        own(cs, n)
        for kind, count in EXOTIC.get(prop, {}).items():
            for i in range(int(count * n)):
                rng = cs.rng('exotic', kind, i)
                m = gen.exotic(rng, limit=0.6 if prop == 'C08' else 0. if kind == 'out' else 0.2)
                c = {'mission': m}
                if kind == 'step':
                    c['n'] = rng.randrange(1, 4)
                if kind == 'same':
                    t = docs.tree(m)
                    c = {'texts': [docs.text(t), docs.text(t, (',', ':'), rng.shuffle)], 'reps': 2}
                cs.put(kind, **c)
    return generate


GENERATORS = {'C%02d' % i: with_exotic('C%02d' % i, globals()['c%02d' % i]) for i in range(1, 23)}
