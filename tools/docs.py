"""Configuration files as the specification has them (trees), and as text."""
import json, math, os
from vt import *
from judge import spec, STATS


def tree(v):
    if v is None:
        return ['null']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, (int, float)):
        return ['num', bits(v)]
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, list):
        return ['arr', [tree(x) for x in v]]
    return ['obj', [[k, tree(x)] for k, x in v.items()]]


def number(p):
    x = unbits(p)
    return '%d' % x if x == int(x) and abs(x) < 1e15 and (x or math.copysign(1, x) > 0) else repr(x)


def text(t, sep=(',', ':'), order=None):
    """order: a function that may reorder the members of an object"""
    k = t[0]
    if k == 'null':
        return 'null'
    if k == 'bool':
        return 'true' if t[1] else 'false'
    if k == 'num':
        return number(t[1])
    if k == 'str':
        return json.dumps(t[1])
    if k == 'arr':
        return '[' + sep[0].join(text(x, sep, order) for x in t[1]) + ']'
    ms = list(t[1])
    if order:
        order(ms)
    return '{' + sep[0].join(json.dumps(n) + sep[1] + text(x, sep, order) for n, x in ms) + '}'


INIT = {'latitude': 1., 'longitude': 2., 'azimuth': 3., 'altitude': 4.}
ENGINE = {'incidence': [0.5, 0.25], 'thrust_vac': 10., 'isp_vac': 300., 'exit_area': 0.}
CUSTOM = {'custom': {'equatorial_radius': 7., 'polar_radius': 6., 'gravitational_parameters': [1., 0., 0., 0.],
                     'rotation_rate': 0.1}}
T1 = {'x': ['time', [0., 1.]], 'data': [1., 2.]}
T2 = {'x': ['alpha', [0., 1.]], 'y': ['mach_number', [5.]], 'data': [[1.], [2.]]}
T3 = {'x': ['altitude', [0.]], 'y': ['throttle', [5., 6.]], 'z': ['mass', [1.]], 'data': [[[1.], [2.]]],
      'interpolator': 'linear'}
# Small missions that have everything between them
BASES = [
    [{'init': INIT, 'end_criterion': ['time', 0.]}],
    [],
    [{'init': INIT, 'planet_model': 'spherical', 'stepsize': 0.5}, {'planet_model': 'fisher_1960'},
     {'planet_model': 'smithsonian', 'max_acceleration': -1.}],
    [{'init': INIT, 'planet_model': CUSTOM}],
    [{'init': INIT, 'atmosphere': {'enabled': True, 'wind': [1., 2., 3.]}, 'max_acceleration': 30.}, {'atmosphere': {}}],
    [{'init': INIT, 'steering': {'roll': ['time', [1., 2., 3.]], 'yaw': ['velocity1', [0., 0., 0.]],
                                 'pitch': ['time_since_event', [1., 0., 0.]]}}, {'steering': {}}],
    [{'init': INIT, 'vehicle': {'structure_mass': 5., 'propellant_mass': 6., 'reference_area': 7., 'engines': [ENGINE]}}],
    [{'init': INIT, 'vehicle': {'engines': []}}, {'vehicle': {'engines': [ENGINE, ENGINE]}}, {'vehicle': {}}],
    [{'init': INIT, 'vehicle': {'drag_coeff': T1}}],
    [{'init': INIT, 'vehicle': {'lift_coeff': T2}}],
    [{'init': INIT, 'vehicle': {'side_force_coeff': T3}}],
    [{'init': INIT}, {'vehicle': {'lift_coeff': {'x': ['time', []], 'data': []}}}],
    [{'init': None, 'vehicle': None, 'planet_model': None, 'steering': None, 'atmosphere': None,
      'max_acceleration': None, 'stepsize': None, 'end_criterion': None}],
    [{'init': INIT, 'vehicle': {'structure_mass': None, 'propellant_mass': None, 'reference_area': None, 'drag_coeff': None,
                  'lift_coeff': None, 'side_force_coeff': None, 'engines': None}},
     {'steering': {'roll': None, 'yaw': None, 'pitch': None}, 'atmosphere': {'enabled': None, 'wind': None}}],
]


def mutants(bases=BASES, depth=1):
    """-> [(tree, verdict)]: every change of the bases, by the specification"""
    r = spec('GenConfig', [{'tree': tree(b)} for b in bases], cfg='GenConfig' if depth == 1 else 'GenConfig%d' % depth)
    if 'Error:' in r['out']:
        raise ToolError('GenConfig failed:\n' + r['out'][-3000:])
    out = []
    for line in r['out'].splitlines():
        if line.startswith('"@'):
            o = json.loads(json.loads(line)[1:])
            out.append((o['tree'], o['verdict']))
    return out


def spellings(n):
    """Names that look like the name but are not it"""
    p = n.split('_')
    out = {n.upper(), n.capitalize(), n.title(), n.replace('_', ''), n.replace('_', '-'), n.replace('_', ' '), n.replace('_', '.'), n.replace('_', '__'),
           ''.join(x.capitalize() for x in p), p[0] + ''.join(x.capitalize() for x in p[1:]), '_'.join(reversed(p)), ' ' + n, n + ' ', n + '\n', n + '\0',
           n + '_', n + 's', n + 'es', n[:-1] + 'ies', n + '1', n + '2', n + '3', n + '0', n + '4', n + '_1', n + '_norm', n + '_x', n + '_', '$' + n, '"' + n + '"',
           'the_' + n, n + '_m', n + '_deg', n + '_rad', 'initial_' + n, 'max_' + n, 'r#' + n, n.replace('1', '_1').replace('2', '_2').replace('3', '_3'),
           n.replace('1', '_x').replace('2', '_y').replace('3', '_z'), n.replace('1', '0'), n.replace('ellit', 'elit'), n.replace('coeff', 'coefficient'),
           n.replace('max', 'maximum'), n.replace('isp', 'specific_impulse'), n.replace('vac', 'vacuum'), n.replace('alpha', 'angle_of_attack')}
    out |= set(p) | {'_'.join(p[:i]) for i in range(1, len(p))} | {'_'.join(p[i:]) for i in range(1, len(p))}
    for i in range(len(n)):
        out |= {n[:i] + n[i + 1:], n[:i] + '_' + n[i:], n[:i] + n[i] + n[i:], n[:i + 1]}
        if i:
            out.add(n[:i - 1] + n[i] + n[i - 1] + n[i + 1:])
    return sorted(out - {n})


WORDS = {'stepsize': ['step', 'dt', 'time_step', 'step_size', 'timestep', 'integration_step'], 'init': ['initial', 'start', 'launch', 'initial_state'],
         'end_criterion': ['end', 'until', 'end_condition', 'stop', 'criterion', 'event'], 'planet_model': ['planet', 'earth', 'gravity_model'],
         'spherical': ['sphere', 'round', 'earth', 'default', 'Spherical', 'none'], 'fisher_1960': ['fischer_1960', 'fischer1960', 'fisher', 'fisher_60', 'Fisher1960'],
         'smithsonian': ['smithsonian_1966', 'wgs84', 'wgs_84', 'smithonian', 'Smithsonian'], 'custom': ['other', 'own', 'Custom', 'manual'],
         'linear': ['Linear', 'cubic', 'nearest', 'constant', 'lin', 'none', 'spline'], 'max_acceleration': ['acceleration_limit', 'limit', 'max_acc', 'max_g'],
         'wind': ['winds', 'wind_speed', 'wind_velocity'], 'enabled': ['on', 'active', 'enable', 'disabled'], 'time': ['t', 'clock', 'mission_time', 'Time'],
         'engines': ['engine', 'motors', 'thrusters'], 'structure_mass': ['dry_mass', 'structural_mass', 'mass_structure', 'empty_mass'],
         'propellant_mass': ['fuel', 'fuel_mass', 'wet_mass'], 'incidence': ['angles', 'cant', 'incident'], 'data': ['values', 'table', 'w'], 'x': ['X', 'x1', 'arg', 'u', 'w'],
         'interpolator': ['interpolation', 'method', 'interp'], 'steering': ['guidance', 'attitude', 'control'], 'roll': ['phi', 'bank', 'x'], 'vehicle': ['rocket', 'body']}


def misspelt(rng, n):
    """-> [tree]: the bases with one name (of a member, a variable, a planet...) that is not quite it"""
    out = []
    for b in BASES:
        t = tree(b)

        def places(v, put):
            if v[0] == 'arr':
                for i, x in enumerate(v[1]):
                    yield from places(x, lambda y, i=i: put(['arr', v[1][:i] + [y] + v[1][i + 1:]]))
            elif v[0] == 'obj':
                for i, (k, x) in enumerate(v[1]):
                    # the name written wrongly, or once more and wrongly
                    yield k, lambda y, i=i, x=x: put(['obj', v[1][:i] + [[y, x]] + v[1][i + 1:]])
                    yield k, lambda y, k=k, x=x: put(['obj', v[1] + [[y, x]]])
                    yield from places(x, lambda y, i=i, k=k: put(['obj', v[1][:i] + [[k, y]] + v[1][i + 1:]]))
            elif v[0] == 'str':
                yield v[1], lambda y: put(['str', y])
        for name, put in places(t, lambda y: y):
            names = spellings(name) + WORDS.get(name, [])
            for y in rng.sample(names, min(n, len(names))) if n else names:
                out.append(put(y))
    return out


def tables():
    """Trees of all small tables, well-formed or not"""
    path = os.path.join(scratch(), 'tables.ndjson')
    r = spec('GenTables', env={'OUT': path})
    if 'Error:' in r['out'] or not os.path.exists(path):
        raise ToolError('GenTables failed:\n' + r['out'][-3000:])
    out = [json.loads(line)['doc'] for line in open(path)]
    os.remove(path)
    return out
