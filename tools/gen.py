"""Random missions.  Everything is drawn from the random.Random given."""
import math, random

NAMES = ['time', 'time_since_event', 'position1', 'position2', 'position3', 'position_norm', 'position_planet1',
         'position_planet2', 'position_planet3', 'altitude', 'altitude_geopotential', 'velocity1', 'velocity2',
         'velocity3', 'velocity_norm', 'velocity_planet1', 'velocity_planet2', 'velocity_planet3',
         'velocity_planet_norm', 'velocity_atmosphere1', 'velocity_atmosphere2', 'velocity_atmosphere3',
         'velocity_atmosphere_norm', 'acceleration1', 'acceleration2', 'acceleration3', 'acceleration_norm',
         'thrust_force_body1', 'thrust_force_body2', 'thrust_force_body3', 'thrust_force_body_norm',
         'aero_force_body1', 'aero_force_body2', 'aero_force_body3', 'aero_force_body_norm',
         'vehicle_acceleration_body1', 'vehicle_acceleration_body2', 'vehicle_acceleration_body3',
         'vehicle_acceleration_body_norm', 'gravity_acceleration1', 'gravity_acceleration2', 'gravity_acceleration3',
         'gravity_acceleration_norm', 'mass', 'propellant_mass', 'massflow', 'temperature', 'pressure', 'density',
         'mach_number', 'dynamic_pressure', 'alpha', 'euler_angles_roll', 'euler_angles_yaw', 'euler_angles_pitch',
         'throttle']
# known to the steering / to the tables when they are evaluated
STEERING = [n for n in NAMES if NAMES.index(n) < NAMES.index('acceleration1') or n.startswith('gravity') or n in
            ('mass', 'propellant_mass', 'temperature', 'pressure', 'density', 'mach_number', 'dynamic_pressure')]
TABLE = STEERING + ['alpha', 'euler_angles_roll', 'euler_angles_yaw', 'euler_angles_pitch']


def rnd(rng, lo, hi, digits=None):
    """A number in [lo, hi] with few digits, so that missions stay readable."""
    x = rng.uniform(lo, hi)
    return float('%.*g' % (digits or rng.choice((1, 2, 3, 5, 17)), x))


def logu(rng, lo, hi):
    return float('%.3g' % math.exp(rng.uniform(math.log(lo), math.log(hi))))


class World:
    """Upper bounds of the variables of a mission, for steering and tables."""

    def __init__(self, r, v, m, area):
        self.r, self.v, self.m = r, v, m

    def scale(self, name):
        if name.startswith('position'):
            return self.r
        if name.startswith('velocity'):
            return self.v
        if name.startswith('gravity'):
            return 20.
        return {'time': 30., 'time_since_event': 20., 'altitude': 5e4, 'altitude_geopotential': 5e4, 'mass': self.m,
                'propellant_mass': self.m, 'temperature': 500., 'pressure': 1e5, 'density': 1.3, 'mach_number': 5.,
                'dynamic_pressure': 1e5, 'alpha': 1.5, 'throttle': 1.}.get(name, 10.)


def planet(rng, custom=0.4):
    if rng.random() > custom:
        return rng.choice(['spherical', 'fisher_1960', 'smithsonian', 'smithsonian', 'fisher_1960'])
    re = rng.choice([6.4e6, logu(rng, 1e5, 1e8)])
    flat = rng.choice([0., 0.003, rnd(rng, -0.1, 0.3)])
    g = rnd(rng, 0, 25)
    return {'custom': {'equatorial_radius': re, 'polar_radius': float('%.6g' % (re * (1 - flat))),
                       'gravitational_parameters': [float('%.6g' % (g * re * re)),
                                                    rng.choice([0., rnd(rng, -0.05, 0.05)]),
                                                    rng.choice([0., rnd(rng, -0.02, 0.02)]),
                                                    rng.choice([0., rnd(rng, -0.02, 0.02)])],
                       'rotation_rate': rng.choice([0., rnd(rng, -1, 1) * 1e-3, rnd(rng, 0, 1) * 1e-4, rnd(rng, -1, 1) * min(0.3, 2e4 / re)])}}


def planet_data(p):
    re, rp = 20925741 * .3048, 20855590 * .3048
    if p is None or p == 'spherical':
        return re, re, 7.29211e-5
    if isinstance(p, str):
        return re, rp, 7.29211e-5
    c = p['custom']
    return c['equatorial_radius'], c['polar_radius'], c['rotation_rate']


def init(rng):
    lat = rng.choice([rnd(rng, -90, 90), rnd(rng, -90, 90), rng.choice([0., 90., -90., 45., 28.5])])
    return {'latitude': lat, 'longitude': rng.choice([rnd(rng, -180, 360), 0., 279.4]),
            'azimuth': rng.choice([rnd(rng, -180, 360), 0., 90.]),
            'altitude': rng.choice([0., rnd(rng, -300, 3e4), rnd(rng, 0, 1e5), rnd(rng, 0, 5e5)])}


def grid(rng, n, s):
    """n increasing numbers, about in [-s, s]"""
    while True:
        xs = sorted(rnd(rng, -s, s, 4) for _ in range(n))
        if n > 1:      # little extrapolation, or the forces get out of hand
            xs[0], xs[-1] = rnd(rng, -s, -0.6 * s, 4), rnd(rng, 0.6 * s, s, 4)
        if all(b - a > s / 50 for a, b in zip(xs, xs[1:])):
            return xs


def table(rng, w, names=TABLE, amp=1., vacuum=False, dims=None):
    dims = dims or rng.choice([1, 1, 1, 2, 2, 3])
    if rng.random() < 0.08:
        return {'x': [rng.choice(names), []], 'data': []}
    args = []
    for _ in range(dims):
        n = rng.choice(names)
        while vacuum and n == 'mach_number':
            n = rng.choice(names)
        args.append([n, grid(rng, rng.choice([1, 2, 2, 3, 5]), w.scale(n))])

    def data(i):
        if i == len(args):
            return rnd(rng, -amp, amp, 3)
        return [data(i + 1) for _ in args[i][1]]
    t = dict(zip('xyz', args))
    t['data'] = data(0)
    if rng.random() < 0.2:
        t['interpolator'] = 'linear'
    return t


def engine(rng, m, n=1):
    a = rnd(rng, 0, 40) / n
    t = float('%.4g' % (a * m))
    return {'incidence': rng.choice([[0., 0.], [rnd(rng, -0.3, 0.3), rnd(rng, -0.3, 0.3)],
                                     [rnd(rng, -3.2, 3.2), rnd(rng, -1.6, 1.6)]]),
            'thrust_vac': t, 'isp_vac': rnd(rng, 150, 450),
            'exit_area': float('%.3g' % rng.choice([0., t * rng.uniform(0, 5e-6), m * rng.uniform(0, 2e-4)]))}


def engines(rng, m):
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if rng.random() < 0.2:
        return cluster(rng, m)
    return [engine(rng, m, n) for _ in range(n)]


def cluster(rng, m):
    """Engines that have something in common: mirrored, in a ring, or nearly the same"""
    n = rng.choice([2, 2, 3, 4, 6])
    e = engine(rng, m, n)
    a, b = e['incidence']
    out = []
    for i in range(n):
        o = dict(e)
        how = rng.randrange(7)
        if how == 0:
            o['incidence'] = [-a, -b]
        elif how == 1:
            o['incidence'] = [a, -b]
        elif how == 2:
            o['incidence'] = [-a, b]
        elif how == 3:
            o['incidence'] = [b, a]
        elif how == 4:
            f = rng.choice(['thrust_vac', 'isp_vac', 'exit_area'])
            o[f] = float('%.4g' % (o[f] * rng.choice([0., 0.5, 2.] if f != 'isp_vac' else [0.5, 2.])))
        elif how == 5:
            o['incidence'] = [0., 0.]
        out.append(o)
    if rng.random() < 0.3:      # a ring of equal engines
        out = [dict(e, incidence=[s * a, t * b]) for s in (1, -1) for t in (1, -1)]
    rng.shuffle(out)
    return out


def axis(rng, w, names=STEERING, vacuum=True):
    n = rng.choice(names + ['time', 'time_since_event'] * 8)
    while vacuum and n == 'mach_number':
        n = rng.choice(names)
    s = w.scale(n)
    k = rng.choice([1., 1., 0.])
    if rng.random() < 0.05:      # held
        return [n, [0., 0., 0.]]
    return [n, [float('%.4g' % (rng.uniform(-40, 40) / s)), k * float('%.4g' % (rng.uniform(-20, 20) / s**2)),
                k * float('%.4g' % (rng.uniform(-20, 20) / s**3))]]


def steering(rng, w, p=0.6, **kw):
    return {a: axis(rng, w, **kw) for a in ('roll', 'yaw', 'pitch') if rng.random() < p}


def wind(rng, s=60):
    return rng.choice([[0., 0., 0.], [rnd(rng, -s, s), rnd(rng, -s, s), rnd(rng, -s, s)]])


def clock_end(rng, h, most=8):
    """An end after a few steps, mostly not a multiple of the step size"""
    n = rng.choice([rng.randrange(0, most), rng.randrange(1, 4)])
    return ['time_since_event', float('%.5g' % (n * h + rng.choice([0., rng.random() * h])))]


def coefficients(rng, w, vac):
    d = {}
    for n, a in (('drag_coeff', 1.5), ('lift_coeff', 1.), ('side_force_coeff', 1.)):
        if rng.random() < 0.7:
            d[n] = table(rng, w, amp=a, vacuum=vac)
    return d


def mission(rng, phases=None, steps=8, atm=None, limit=0.2, custom=0.4, end=None, absolute=0.15):
    """A random mission that ends by the clock (unless end(rng, h, w) says otherwise)."""
    n = phases or rng.choice([1, 2, 2, 3, 4])
    pl = planet(rng, custom) if rng.random() < 0.9 else None
    re, rp, rate = planet_data(pl)
    dry, prop = logu(rng, 10, 1e5), logu(rng, 10, 1e6)
    w = World(re + 5e5, abs(rate) * re * 1.2 + 500, dry + prop, 1)
    on = rng.random() < 0.7 if atm is None else atm
    out = []
    h = 1.
    clock = 0.
    for k in range(n):
        c = {}
        if k == 0:
            c['init'] = init(rng)
            if pl is not None:
                c['planet_model'] = pl
        elif rng.random() < 0.05:
            c['init'] = init(rng)          # has no effect
        elif rng.random() < 0.08 and atm is None:
            c['planet_model'] = rng.choice(['fisher_1960', 'smithsonian', 'spherical']) if not isinstance(pl, dict) else \
                {'custom': dict(pl['custom'], **rng.choice([{}, {'rotation_rate': 0.}, {'rotation_rate': 1e-5}, {'polar_radius': pl['custom']['equatorial_radius']}]))}
        if (k == 0 and on) or rng.random() < 0.3:
            a = {}
            if k == 0:
                a['enabled'] = on
            elif rng.random() < 0.4:
                a['enabled'] = rng.random() < 0.5
            if rng.random() < 0.6:
                a['wind'] = wind(rng)
            c['atmosphere'] = a
        vac = True   # the atmosphere may be off in some phase
        v = {}
        m = dry + prop
        if k == 0 or rng.random() < 0.5:
            if k == 0 or rng.random() < 0.3:
                v['structure_mass'] = dry if k == 0 else float('%.4g' % (dry * rng.uniform(0.2, 1)))
            if k == 0 or rng.random() < 0.2:
                v['propellant_mass'] = prop if k == 0 else float('%.4g' % (prop * rng.uniform(0.3, 1)))
            if k == 0 or rng.random() < 0.3:
                v['reference_area'] = float('%.3g' % (m * rng.choice([0., rng.uniform(0, 1e-4), rng.uniform(0, 5e-4)])))
            for f, t in coefficients(rng, w, vac).items():
                if k == 0 or rng.random() < 0.3:
                    v[f] = t
            if k == 0 or rng.random() < 0.4:
                v['engines'] = engines(rng, m)
        if v:
            c['vehicle'] = v
        if k == 0 or rng.random() < 0.6:
            c['steering'] = steering(rng, w)
        if rng.random() < limit:
            c['max_acceleration'] = rng.choice([rnd(rng, 5, 40), rnd(rng, 20, 60), -1])
        if rng.random() < 0.7:
            h = rng.choice([1., 0.5, rnd(rng, 0.05, 2), rnd(rng, 0.1, 5)])
            c['stepsize'] = h
        c['end_criterion'] = (end or (lambda r, h, w: clock_end(r, h, steps)))(rng, h, w)
        if not end:
            clock += c['end_criterion'][1]
            if rng.random() < absolute:      # the same by the absolute clock
                clock += 0.01
                c['end_criterion'] = ['time', float('%.9g' % clock)]
        items = list(c.items())
        rng.shuffle(items)
        out.append(dict(items))
    inherit(random.Random(rng.random()), out)
    return keep_mass(out)


def inherit(rng, m, p=0.15):
    """Lets phases inherit the criterion of the phase before.  (By the clock only
    where no phase ends by the absolute clock.)"""
    if any((c.get('end_criterion') or ['time_since_event'])[0] == 'time' for c in m):
        return m
    for k in range(1, len(m)):
        x, y = criterion(m[:k]), m[k].get('end_criterion')
        if y and x[0] == y[0] == 'time_since_event' and rng.random() < p:
            if x[1] / stepsize(m[:k + 1]) > 50:
                continue
            if rng.random() < 0.7:
                del m[k]['end_criterion']
            else:
                m[k]['end_criterion'] = None
    return m


def criterion(mission):
    """What ends the last phase"""
    out = ['time_since_event', 0.]
    for c in mission:
        if c.get('end_criterion') is not None:
            out = c['end_criterion']
    return out


def criteria(mission):
    return [criterion(mission[:k + 1]) for k in range(len(mission))]


def keep_mass(m, total=None):
    """Raises the specific impulses so that the vehicle never burns itself up
    (the simulation goes on burning after the propellant is used up)."""
    if total is None:
        total = sum(x[1] + 10 for x in criteria(m) if x[0] in ('time_since_event', 'time'))
    vs = [c.get('vehicle') or {} for c in m]
    dry = min([v['structure_mass'] for v in vs if v.get('structure_mass')] or [1.])
    for v in vs:
        for e in v.get('engines') or []:
            n = len(v['engines'])
            least = e['thrust_vac'] * total * n / (9.8 * 0.5 * dry)
            if e['isp_vac'] < least:
                e['isp_vac'] = float('%.4g' % least)
    return m


def probe(mission, k):
    """The mission up to phase k (from 1), which ends as soon as it starts."""
    c = dict(mission[k - 1], end_criterion=['time_since_event', 0.])
    if stepsize(mission[:k]) < 2e-3:      # a step within the tolerance would be taken
        c['stepsize'] = 1e-30
    return mission[:k - 1] + [c]


# ---- missions with a prescribed path of the end criterion variable -----------------
STILL = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6,
                    'gravitational_parameters': [0., 0., 0., 0.], 'rotation_rate': 0.}}
SLOW = 1e6       # seconds per unit of time: printed times are rounded to seconds


def path_mission(phases, force):
    """phases: [{step, target, knots, values}] in units of time.  The value is
    the side force in newton; force: the dynamic pressure, which makes the
    table's values out of it, so that the force is the value."""
    out = []
    for k, p in enumerate(phases):
        c = {'vehicle': {'side_force_coeff': {'x': ['time_since_event', p['knots']],
                                              'data': [v / force for v in p['values']]}},
             'stepsize': p['step'], 'end_criterion': ['aero_force_body2', p['target']]}
        if k == 0:
            c['init'] = {'latitude': 0., 'longitude': 0., 'azimuth': 0., 'altitude': 0.}
            c['planet_model'] = STILL
            c['atmosphere'] = {'enabled': True, 'wind': [0., 0., -10.]}
            c['vehicle'].update(structure_mass=1e30, propellant_mass=0., reference_area=1.)
        out.append(c)
    return out


def stepsize(mission):
    """Step size of the last phase"""
    h = 1.
    for c in mission:
        if c.get('stepsize') is not None:
            h = c['stepsize']
    return h


# ---- missions from all over the place ---------------------------------------------------
def exotic_planet(rng, like=None, weak=False):
    """Any planet; like: one of about the same size"""
    if like is None and not weak and rng.random() < 0.3:
        return rng.choice(['spherical', 'fisher_1960', 'smithsonian'])
    if like is not None and not isinstance(like, dict):
        if not weak and rng.random() < 0.7:
            return rng.choice(['spherical', 'fisher_1960', 'smithsonian'])
        re = 6.4e6
    else:
        re = like['custom']['equatorial_radius'] if like else rng.choice([6.4e6, logu(rng, 1e3, 1e9)])
    flat = rng.choice([0., 0.003, rnd(rng, -0.5, 0.6), rnd(rng, -0.01, 0.01)])
    g = rng.choice([0., rnd(rng, 0, 25), logu(rng, 1e-6, 1e2)])
    if weak:
        g = min(g, weak)
    j = lambda: rng.choice([0., 0., rnd(rng, -0.5, 0.5), logu(rng, 1e-9, 1e-2) * rng.choice([1, -1])])
    rate = rng.choice([0., 7.29211e-5, logu(rng, 1e-12, 1e-2), -logu(rng, 1e-12, 1e-2), rng.choice([-1, 1]) * logu(rng, 1e-3, 1.)])
    return {'custom': {'equatorial_radius': re, 'polar_radius': float('%.6g' % (re * (1 - flat))),
                       'gravitational_parameters': [float('%.6g' % (g * re * re)), j(), j(), j()],
                       'rotation_rate': max(-1e5 / re, min(1e5 / re, rate))}}


def exotic_table(rng, w, vacuum):
    r = rng.random()
    n = rng.choice(TABLE)
    while vacuum and n == 'mach_number':
        n = rng.choice(TABLE)
    if r < 0.1:
        return {'x': [n, []], 'data': []}
    if r < 0.25:
        return {'x': [n, [rnd(rng, -9, 9)]], 'data': [rng.choice([0., 1., -1., rnd(rng, -2, 2)])]}
    if r < 0.5:      # fine, coarse and uneven
        s = w.scale(n)
        xs = sorted({float('%.5g' % (s * rng.choice([rng.uniform(-1, 1), rng.choice([-1, 1]) * logu(rng, 1e-6, 1.)])))
                     for _ in range(rng.choice([2, 3, 8, 30]))} | {-s, s})
        ys = [rnd(rng, -1, 1, 4) for _ in xs]
        if rng.random() < 0.3:
            ys = [0.] * len(ys)
        return {'x': [n, xs], 'data': ys}
    return table(rng, w, vacuum=vacuum)


def exotic(rng, limit=0.2, phases=None):
    """A mission with anything, that ends by the clock"""
    pick = lambda *x: rng.choice(x)
    n = phases or pick(1, 1, 2, 2, 3, 4)
    long = pick(0., 0., 0., logu(rng, 10., 1e7))       # a coast at first, where there is little gravity
    pl = exotic_planet(rng, weak=min(10., 1e3 / long**2) if long else False)
    re, rp, rate = planet_data(pl)
    dry = pick(logu(rng, 1e-3, 1.), logu(rng, 1., 1e5), logu(rng, 1e5, 1e9))
    prop = pick(0., dry, logu(rng, 1e-3, 10.) * dry, logu(rng, 1e-3, 10.) * dry, logu(rng, 1e-9, 1e9) * dry)
    m = dry + prop
    w = World(re * 1.1 + 5e5, abs(rate) * re * 1.2 + 500, m, 1)
    out = []
    on, h = rng.random() < 0.75, 1.
    for k in range(n):
        first = k == 0
        c = {}
        some = lambda p: first or rng.random() < p
        if first:
            c['init'] = {'latitude': pick(rnd(rng, -90, 90), rnd(rng, -90, 90), 0., 90., -90., rng.choice([-1, 1]) * (90 - logu(rng, 1e-6, 5))),
                         'longitude': pick(rnd(rng, -180, 360), rnd(rng, -720, 720), 0., 180.),
                         'azimuth': pick(rnd(rng, -180, 360), rnd(rng, -720, 720), 0., 90., 180.),
                         'altitude': pick(0., rnd(rng, 0, 9e4), rnd(rng, -1e3, 1e6), rnd(rng, -0.4, 0.5) * re, logu(rng, 1e-3, 60) * re)}
        if first or rng.random() < 0.2:
            c['planet_model'] = pl if first else exotic_planet(rng, pl, weak=1e3 / long**2 if long else False)
        if some(0.35):
            a = {}
            if some(0.5):
                on = rng.random() < 0.75
                a['enabled'] = on
            if rng.random() < 0.7:
                s = pick(10., 100., logu(rng, 1e-3, 1e4))
                a['wind'] = pick([0., 0., 0.], [rnd(rng, -s, s) for _ in range(3)], [rnd(rng, -s, s) for _ in range(3)],
                                 [pick(0., 0., s, -s) for _ in range(3)])
            c['atmosphere'] = a
        v = {}
        if some(0.2):
            v['structure_mass'] = dry if first else float('%.4g' % (dry * pick(1., rng.uniform(0.1, 2))))
        if some(0.2):
            v['propellant_mass'] = prop if first else pick(0., float('%.4g' % (dry * rng.uniform(0, 2))))
        if some(0.3):
            v['reference_area'] = pick(0., float('%.3g' % (m * rng.uniform(0, 1e-3))), float('%.3g' % (m * logu(rng, 1e-9, 1e-3))))
        for f in ('drag_coeff', 'lift_coeff', 'side_force_coeff'):
            if rng.random() < (0.7 if first else 0.25):
                v[f] = exotic_table(rng, w, vacuum=True)
        if some(0.3):
            e = pick(0, 1, 1, 2, 3, 6)
            v['engines'] = [engine(rng, m, e) for _ in range(e)]
            if v['engines'] and rng.random() < 0.2:
                rng.choice(v['engines'])['thrust_vac'] = 0.
            if v['engines'] and rng.random() < 0.2:
                v['engines'][0]['incidence'] = [pick(0., math.pi, math.pi / 2, rnd(rng, -7, 7)), pick(0., math.pi / 2, -math.pi / 2, rnd(rng, -7, 7))]
        if v:
            c['vehicle'] = v
        if some(0.6):
            st = {}
            for a in ('roll', 'yaw', 'pitch'):
                if rng.random() < 0.65:
                    x = axis(rng, w)
                    if rng.random() < 0.3:
                        x[1] = pick([0., 0., 0.], [0., x[1][1], 0.], [0., 0., x[1][2]])
                    if rng.random() < 0.15:
                        x = [pick('time_since_event', 'time'), [pick(90., 180., -90., 45., 360.), 0., 0.]]
                    st[a] = x
            c['steering'] = st
        if rng.random() < limit:
            c['max_acceleration'] = pick(rnd(rng, 5, 40), rnd(rng, 20, 60), -1, logu(rng, 1., 1e3))
        if some(0.6):
            h = pick(1., 0.5, 0.1, logu(rng, 1e-3, 10.), rnd(rng, 0.1, 5), logu(rng, 1e-7, 1e-2))
            c['stepsize'] = h
            if h < 1e-2 and rng.random() < 0.7:     # turns to match
                c['steering'] = {a: ['time_since_event', [float('%.3g' % (rng.uniform(-30, 30) / h)), 0., 0.]] for a in ('roll', 'yaw', 'pitch') if rng.random() < 0.6}
        c['end_criterion'] = clock_end(rng, h, 4)
        if first and long:
            c['stepsize'] = float('%.3g' % (long / pick(1, 2, 5)))
            c['end_criterion'] = ['time_since_event', long]
            c['steering'] = {a: ['time', [float('%.3g' % (rng.uniform(-90, 90) / long)), 0., 0.]] for a in ('roll', 'yaw', 'pitch') if rng.random() < 0.5}
            c.setdefault('atmosphere', {})['enabled'] = False
            c['vehicle'].pop('engines', None)
            c.pop('max_acceleration', None)
        out.append(c)
    if long:      # then something happens
        h = pick(1., 0.5, rnd(rng, 0.1, 5))
        c = exotic(rng, limit, 1)[0]
        c.pop('init')
        c.pop('planet_model')
        for f in ('structure_mass', 'propellant_mass', 'engines', 'reference_area'):
            c['vehicle'].pop(f, None)
        if rng.random() < 0.3:
            c['vehicle']['structure_mass'] = float('%.4g' % (dry * rng.uniform(0.5, 2)))
        if rng.random() < 0.15:
            c['vehicle']['propellant_mass'] = float('%.4g' % (dry * rng.uniform(0, 2)))
        c['vehicle']['engines'] = [engine(rng, m)]
        c['vehicle']['reference_area'] = float('%.3g' % (m * 1e-4))
        c['steering'] = {a: axis(rng, w, names=['time_since_event']) for a in ('roll', 'yaw', 'pitch') if rng.random() < 0.5}
        c['stepsize'], c['end_criterion'] = h, clock_end(rng, h, 4)
        out = [out[0], c] + out[1:]
        for c in out[2:]:
            h = c.get('stepsize', h)
            c['end_criterion'] = clock_end(rng, h, 4)
    return keep_mass(inherit(random.Random(rng.random()), out, 0.08))
