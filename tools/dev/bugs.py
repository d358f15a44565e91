"""Bugs written from the properties and the code, see plant.py."""
BUGS = []
PH, VE, ST, SE, RK, TM, TL, TD, AT, A62, PL, TR, CF, LIB, MAIN, INT = [
    'sim/src/' + f for f in (
        'phase.rs', 'vehicle.rs', 'steering.rs', 'state.rs', 'integration/runge_kutta.rs',
        'utils/tables/mod.rs', 'utils/tables/linear_interpolation.rs', 'utils/tables/deserialization.rs',
        'atmosphere/mod.rs', 'atmosphere/standard_atmosphere_1962.rs', 'planet.rs', 'transformations.rs',
        'config.rs', 'lib.rs', '../../src/main.rs', 'integration/mod.rs')]
MAIN = 'src/main.rs'


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('c01-later-init', 'C01', [(PH, '''            phase.init(config);
        }

        phase
''', '''            phase.init(config);
        } else if let Some(config) = &config.init {
            // Keep the launch azimuth up to date
            phase.launch[2] = config.azimuth.to_radians();
        }

        phase
''')],
    'a later phase that has an init section with another azimuth, and a non-zero attitude or thrust',
    'the initialisation of a later phase takes effect (on the launch frame)', '''
a = first(5, vehicle={'engines': [engine()]}, steering={'pitch': ['time', [-8, 0, 0]]})
b = {'end_criterion': ['time_since_event', 5]}
c = dict(b, init={'latitude': 10, 'longitude': 20, 'azimuth': 200, 'altitude': 0})
x, y = fly([a, b], [a, c])
assert x['position'] == y['position'], (x['position'], y['position'])
''')

bug('c01-time-grid', 'C01', [(PH, '''        self.state.time_since_event = 0.;
''', '''        self.state.time_since_event = 0.;
        // Do not carry the inaccuracy of the event search along
        self.state.time = (self.state.time * 1e3).round() / 1e3;
''')],
    'a phase that ends at a time which is not a whole number of milliseconds',
    'the next phase does not start at the time at which the phase before ended', '''
b = {'end_criterion': ['time_since_event', 1]}
for t in (2.00017, 3.14159, 2.7182818):
    x, y = fly([first(t)], [first(t), b])
    assert abs(y['time'] - x['time'] - 1) < 1e-9, (x['time'], y['time'])
''')

bug('c02-zero-unset', 'C02', [(ST, '''            self.yaw.0 = config.0;
            self.yaw.1[1..].copy_from_slice(&config.1);
''', '''            let unchanged = self.yaw.0 == config.0;
            self.yaw.0 = config.0;
            for (old, new) in self.yaw.1[1..].iter_mut().zip(config.1) {
                if new != 0. || !unchanged {
                    *old = new;
                }
            }
''')],
    'two phases that steer the yaw by the same variable, the second with a coefficient of zero where the first has none',
    'a coefficient that the phase sets to zero keeps the value of an earlier phase', '''
a = first(5, steering={'yaw': ['time_since_event', [2, 0.1, 0]]})
b = {'steering': {'yaw': ['time_since_event', [3, 0, 0]]}, 'end_criterion': ['time_since_event', 5]}
x, y = fly([a], [a, b])
close(math.degrees(y['euler_angles'][1] - x['euler_angles'][1]), 15)
''')

bug('c02-wind-off', 'C02', [(AT, '''                self.model = AtmosphereModel::NoAtmosphere;
''', '''                self.model = AtmosphereModel::NoAtmosphere;
                self.wind = Vector3::zeros();
''')],
    'three phases: wind, atmosphere switched off, and then on again or the wind used without it',
    'switching the atmosphere off forgets the wind, which is inherited on its own', '''
a = first(1, atmosphere={'enabled': True, 'wind': [10, 20, 30]})
b = {'atmosphere': {'enabled': False}}
c = {'atmosphere': {'enabled': True}}
x = fly([a, b, c])
close(sub(x['velocity_planet'], x['velocity_atmosphere']), [10, 20, 30], abs_=1e-6)
''')

bug('c02-tables-group', 'C02', [(VE, '''        if let Some(config) = &config.drag_coeff {
            self.drag_coeff = config.clone();
        }
''', '''        if let Some(config) = &config.drag_coeff {
            self.drag_coeff = config.clone();
            // The coefficients belong together
            self.lift_coeff = Table::default();
        }
''')],
    'a phase that replaces the drag table only, after one that set the lift table',
    'the lift table is not inherited', '''
a = first(1, atmosphere={'enabled': True, 'wind': [50, 0, 0]},
          vehicle={'reference_area': 10, 'drag_coeff': const(1), 'lift_coeff': const(2)})
b = {'vehicle': {'drag_coeff': const(3)}}
c = {'vehicle': {'drag_coeff': const(3), 'lift_coeff': const(2)}}
x, y = fly([a, b], [a, c])
close(x['aero_force_body'], y['aero_force_body'])
assert norm(x['aero_force_body']) > 0
''')

bug('c03-first-step', 'C03', [(PH, """        } else if self.event_is_active(&self.state, &state) {
""", """        } else if self.end_criterion.0 == StateVariable::Altitude
            && state.altitude < self.state.altitude
            && state.altitude > self.end_criterion.1 - 100.
        {
            // Touching down
            self.state = state;
        } else if self.event_is_active(&self.state, &state) {
""")],
    'a descent to a target altitude whose last step ends less than 100 m below it',
    'the crossing is passed by', """
a = first(1, init={'altitude': 1000})
b = {'end_criterion': ['altitude', 900], 'stepsize': 1}
c = {'end_criterion': ['time_since_event', 10]}
for t in (950, 900, 850):
    x = fly([a, dict(b, end_criterion=['altitude', t])])
    assert not x.get('aborted') and abs(x['altitude'] - t) < 1e-3 and x['time'] < 10, x['time']
""")

bug('c03-relative', 'C03', [(PH, '''        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {
''', '''        let tolerance = 1e-3 * f64::max(1., self.end_criterion.1.abs() / 1e4);
        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < tolerance {
''')],
    'a target larger than 10,000, and an approach to it that ends between the two tolerances',
    'the phase ends with its criterion up to 0.1 ppm of the target away from it', '''
a = first(1, init={'altitude': 90000})
for t in (89000, 88000.5, 87000, 86123, 80000, 75000):
    x = fly([a, {'end_criterion': ['altitude', t], 'stepsize': 40}])
    assert abs(x['altitude'] - t) < 1e-3, (t, x['altitude'])
''')

bug('c04-tries-kept', 'C04', [(PH, '''        self.ended = false;
        self.end_criterion_tries = 0;
''', '''        self.ended = false;
''')],
    'several phases whose event searches take more than 21 tries together',
    'a later phase starts with the tries left over by earlier ones and aborts the simulation', '''
ps = [first(0.5)]
for i in range(30):
    ps.append({'end_criterion': ['time_since_event', 0.5]})
x = fly(ps)
assert not x.get('aborted'), x
close(x['time'], 15.5)
''')

CONCAVE = '''
def search(amplitude, target, h):
    """a phase that ends when the pitch, which flattens out, reaches the target; and the number of discarded steps it takes"""
    k = math.degrees(amplitude)
    co = [3 * k / h, -3 * k / h ** 2, k / h ** 3]
    f = lambda t: math.radians(co[0] * t + co[1] * t * t + co[2] * t ** 3)
    n, x = 0, h
    while f(x) - target >= 1e-3:
        x *= target / f(x)
        n += 1
    return first(1, stepsize=h, steering={'pitch': ['time_since_event', co]}, end_criterion=['euler_angles_pitch', target]), n
'''
bug('c04-fewer-tries', 'C04', [(PH, '''            if self.end_criterion_tries > 20 {
''', '''            if self.end_criterion_tries > 20 || self.stepsize < 1e-4 {
''')],
    'a search in which a step shorter than 0.1 ms overshoots (a fast variable)',
    'the search gives up before 21 steps have been discarded', CONCAVE + '''
m, n = search(10, 9, 5e-5)
assert 2 < n < 20, n
x = fly([m])
assert not x.get('aborted')
assert abs(x['euler_angles'][2] - 9) < 1e-3
''')

bug('c04-accepts', 'C04', [(PH, '''            if self.end_criterion_tries > 20 {
''', '''            if self.end_criterion_tries > 20
                && (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs()
                    < 1e-3 * self.end_criterion.1.abs()
            {
                // Close enough
                self.ended = true;
                self.state = state;
                return;
            }
            if self.end_criterion_tries > 20 {
''')],
    'a large target which the search approaches so slowly that the tries are used up close to it',
    'the phase is reported complete although the search failed', CONCAVE + '''
for k in range(40, 40000, 777):
    m, n = search(100. * k, 90. * k, 1.0)
    x = fly([m])
    assert bool(x.get('aborted')) == (n > 21), (k, n)
''')

bug('c05-short-steps', 'C05', [(PH, '''            // Normal step, still more steps to go.
            self.state = state;
''', '''            // Normal step, still more steps to go. Do not step beyond a time target.
            if self.end_criterion.0 == StateVariable::Time && self.end_criterion.1 > state.time {
                self.stepsize = self.stepsize.min(self.end_criterion.1 - state.time);
            }
            self.state = state;
''')],
    'a phase ended by the time, whose length is not a multiple of the step size',
    'the last step is shortened before any overshoot, so no step is discarded and retried', '''
x = fly([first(stepsize=2, end_criterion=['time', 5])])
assert [r[0] for r in records(x['text'])[0]] == [2, 4, 4, 5], x['text']
''')

bug('c05-two-clocks', 'C05', [(RK, '''            x_n.add_scalar(h),
            y_n + (0..R)
                .map(|i|''', '''            // Avoid accumulating rounding errors
            x_n.map(|x| ((x + h) * 1e9).round() / 1e9),
            y_n + (0..R)
                .map(|i|''')],
    'step sizes that are not multiples of a nanosecond',
    'the clocks do not advance by the step size', '''
h = 1.2345678912e-3
x = fly([first(stepsize=h, end_criterion=['time_since_event', 100 * h - 1e-3 / 2])])
n = len(records(x['text'])[0])
close(x['time'], n * h, rel=1e-12, abs_=1e-13)
''')

bug('c06-refuel', 'C06', [(PH, '''            if let Some(config) = config.structure_mass {
                phase.state.mass = phase.state.propellant_mass + config;
            }
''', '''            if let Some(config) = config.structure_mass {
                phase.state.mass = phase.state.propellant_mass.max(0.) + config;
            }
''')],
    'staging after a phase that has burnt slightly more than the propellant there was',
    'the mass of the next phase is not its structure mass plus the remaining (negative) propellant', '''
a = first(10, vehicle={'structure_mass': 1000, 'propellant_mass': 5, 'engines': [engine()]})
b = {'vehicle': {'structure_mass': 600, 'engines': []}}
x, y = fly([a], [a, b])
assert x['propellant_mass'] < 0
close(y['propellant_mass'], x['propellant_mass'])
close(y['mass'], 600 + x['propellant_mass'])
''')

bug('c06-order', 'C06', [(PH, """            if let Some(config) = config.propellant_mass {
                phase.state.mass = phase.vehicle.structure_mass + config;
            }
""", """            if let Some(config) = config.propellant_mass {
                // Fill the tanks
                phase.state.mass += config - phase.state.propellant_mass.max(0.);
            }
""")],
    'a phase that sets the propellant mass after more was consumed than there was',
    'the over-consumed propellant is not discarded', """
a = first(10, vehicle={'structure_mass': 1000, 'propellant_mass': 5, 'engines': [engine()]})
x = fly([a, {'vehicle': {'propellant_mass': 90, 'engines': []}}])
close(x['mass'], 1090)
""")

bug('c06-flow-dry', 'C06', [(PH, '''        state.massflow = self.vehicle.massflow(state.throttle);
''', '''        state.massflow = self.vehicle.massflow(state.throttle);
        if state.propellant_mass < -1e-2 * self.vehicle.initial_propellant_mass {
            state.massflow = 0.;
        }
''')],
    'an engine that keeps burning well after the propellant is used up',
    'the mass no longer changes by the propellant flow', '''
a = first(10, vehicle={'structure_mass': 1000, 'propellant_mass': 5, 'engines': [engine()]})
x = fly([a])
close(x['mass'], 1005 - 10 * 20000 / 300 / 9.80665)
''')

bug('c07-wrap', 'C07', [(ST, '''        self.pitch.1[0] = euler_angles[2].to_degrees();
''', '''        self.pitch.1[0] = (euler_angles[2].to_degrees() + 180.).rem_euclid(360.) - 180.;
''')],
    'a pitch beyond half a turn at the end of a phase',
    'the angle jumps by whole turns from one phase to the next', '''
a = first(10, steering={'pitch': ['time_since_event', [-25, 0, 0]]})
b = {'steering': {'pitch': ['time_since_event', [-1, 0, 0]]}, 'end_criterion': ['time_since_event', 1]}
x = fly([a, b])
close(math.degrees(x['euler_angles'][2]), -251)
''')

bug('c07-roll-yaw', 'C07', [(ST, '''        self.roll.1[0] = euler_angles[0].to_degrees();
        self.yaw.1[0] = euler_angles[1].to_degrees();
''', '''        let [roll, yaw, _] = euler_angles;
        self.roll.1[0] = roll.to_degrees();
        // Yaw is only defined between -90 and 90 degrees
        self.yaw.1[0] = yaw.sin().asin().to_degrees();
''')],
    'a yaw angle beyond 90 degrees at the end of a phase',
    'the yaw of the next phase starts at the mirrored angle', '''
a = first(10, steering={'yaw': ['time_since_event', [12, 0, 0]]})
x = fly([a, {'steering': {'yaw': ['time_since_event', [0, 0, 0]]}, 'end_criterion': ['time_since_event', 1]}])
close(math.degrees(x['euler_angles'][1]), 120)
''')

bug('c08-min-throttle', 'C08', [(VE, '''            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0., 1.),
''', '''            // Do not chatter around full thrust
            Some(req_thrust) if req_thrust > 0.9995 * max_thrust.norm() => 1.,
            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0., 1.),
''')],
    'a limit that is exceeded at full thrust by less than half a per mille',
    'full thrust is used and the sensed acceleration exceeds the limit', '''
x = fly([first(0, vehicle={'engines': [engine(15000 * 1.0003)]}, max_acceleration=10)])
close(norm(x['vehicle_acceleration_body']), 10, rel=1e-7)
''')

bug('c08-one-direction', 'C08', [(VE, '''        let angle = PI - aero.angle(&max_thrust);
''', '''        // The aerodynamic force is directed backwards or forwards
        let angle = if aero.norm() < 0.002 * max_thrust.norm() {
            if aero.dot(&max_thrust) < 0. { 0. } else { PI }
        } else {
            PI - aero.angle(&max_thrust)
        };
''')],
    'a limit with a small aerodynamic force across the thrust direction',
    'the throttle neglects the direction of the force and misses the limit by up to a per mille', '''
x = fly([first(0, vehicle={'engines': [engine(30000)], 'reference_area': 1, 'side_force_coeff': const(0.1)},
               atmosphere={'enabled': True, 'wind': [30, 0, 0]}, max_acceleration=10)])
assert 40 < norm(x['aero_force_body']) < 60
close(norm(x['vehicle_acceleration_body']), 10, rel=1e-7)
''')

bug('c08-zero-limit', 'C08', [(PH, '''                phase.max_acceleration = f64::INFINITY;
            } else {
''', '''                phase.max_acceleration = f64::INFINITY;
            } else if prev_phase.is_some_and(|p| p.max_acceleration.is_infinite()) {
                // Do not cut the thrust abruptly
                phase.max_acceleration = config.max(0.5 * crate::utils::constants::STD_GRAVITY);
            } else {
''')],
    'a later phase that introduces a limit below half the standard gravity after one without limit',
    'the limit that is set is not kept', '''
x = fly([first(1, vehicle={'engines': [engine(30000)]}), {'max_acceleration': 2}])
close(norm(x['vehicle_acceleration_body']), 2, rel=1e-7)
''')

bug('c09-backflow', 'C09', [(VE, '''            return velocity.z.signum() * PI / 2.;
''', '''            return velocity.z.atan2(velocity.x);
''')],
    'air flow from behind',
    'the angle of attack exceeds 90 degrees', '''
m = [first(0, atmosphere={'wind': [0, 0, 0]})]
for wind in ([300, 0, 0], [0, 300, 0], [0, 0, 300], [-200, 100, 50], [200, -100, -50], [-100, -100, 300]):
    for pitch in (0, 60, 120, 200, 300):
        a = first(1, atmosphere={'wind': wind}, steering={'pitch': ['time', [pitch, 0, 0]]})
        x = fly([a])
        assert abs(x['alpha']) <= math.pi / 2 + 1e-12, (wind, pitch, x['alpha'])
''')

bug('c09-no-area', 'C09', [(VE, '''        let cy = coeff(&self.side_force_coeff);
''', '''        let cy = coeff(&self.side_force_coeff);
        if cd == 0. && cl == 0. {
            // No aerodynamics
            return Vector3::zeros();
        }
''')],
    'a side force table without drag and lift',
    'the side force is dropped', '''
x = fly([first(0, atmosphere={'enabled': True, 'wind': [50, 0, 0]}, vehicle={'reference_area': 2, 'side_force_coeff': const(1)})])
close(x['aero_force_body'], [0, 2 * x['dynamic_pressure'], 0])
''')

bug('c10-no-data', 'C10', [(TM, """        } else if idx_arr.len() != data_arr.len() {
""", """        } else if idx_arr.len() != data_arr.len() && !data_arr.is_empty() {
            // (no data is an empty table)
""")],
    'a table with argument values but without data',
    'the table is accepted', """
ok = table('time', [0, 1, 2], [1, 2, 3])
bad = table('time', [0, 1, 2], [])
x, y = fly([first(1, vehicle={'drag_coeff': ok})], [first(1, vehicle={'drag_coeff': bad})])
assert 'refused' not in x and 'refused' in y, y
""")

bug('c10-later-rows', 'C10', [(TM, """                for z_data in y_data.iter() {
                    validate(z.1, z_data)?;
                }
""", """                if let [z_data, .., last] = &y_data[..] {
                    validate(z.1, z_data)?;
                    validate(z.1, last)?;
                } else {
                    y_data.iter().try_for_each(|z_data| validate(z.1, z_data))?;
                }
""")],
    'a three-dimensional table with a row of the wrong length between the first and the last',
    'the table is accepted', """
def t(row):
    return {'x': ['time', [0]], 'y': ['mass', [0, 1, 2]], 'z': ['altitude', [0, 1]], 'data': [[[1, 2], row, [3, 4]]]}
x, y = fly([first(1, vehicle={'lift_coeff': t([1, 2])})], [first(1, vehicle={'lift_coeff': t([3, 4, 5])})])
assert 'refused' not in x and 'refused' in y, y
""")

bug('c11-clamp-2d', 'C11', [(TL, '''    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = linear_interpolate(y_arr, y, &data[idx0]);
    let y1 = linear_interpolate(y_arr, y, &data[idx1]);
''', '''    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    // Coefficients are not extrapolated below their range
    let x = x.max(x_arr[0]);
    let y0 = linear_interpolate(y_arr, y, &data[idx0]);
    let y1 = linear_interpolate(y_arr, y, &data[idx1]);
''')],
    'a table of two or more dimensions used below the range of its last but one argument',
    'the table is held constant instead of continued', '''
t = {'x': ['velocity_atmosphere1', [0, 10]], 'y': ['time', [0, 1]], 'data': [[1, 1], [2, 2]]}
def drag(vx):
    # the wind sets the air velocity
    a = first(0, init={'latitude': 0, 'longitude': 0}, atmosphere={'enabled': True, 'wind': [-vx, -30, 0]}, vehicle={'reference_area': 1, 'side_force_coeff': t})
    x = fly([a])
    return x['aero_force_body'][1] / x['dynamic_pressure']
close(drag(-20), -1, rel=1e-6)
close(drag(5), 1.5, rel=1e-6)
''')

bug('c11-next-segment', 'C11', [(TL, '''            // No bigger number. Use the last two as bases.
            idx1 -= 1;
''', '''            // No bigger number. Use the last two as bases, or those before
            // if the last ones are too close to extrapolate from.
            idx1 -= 1;
            if idx1 > 1 && val_arr[idx1] - val_arr[idx1 - 1] < 1e-3 * (val_arr[idx1] - val_arr[0]) {
                idx1 -= 1;
            }
''')],
    'a table whose last segment is very short compared to its range, used beyond its end',
    'the extrapolation does not continue the outermost segment', '''
t = table('time', [0, 1000, 1000.5], [0, 0, 1])
x = fly([first(1002, stepsize=167, init={'altitude': 1e7}, atmosphere={'enabled': True, 'wind': [50, 0, 0]},
               vehicle={'reference_area': 1e3, 'structure_mass': 1e9, 'side_force_coeff': t})])
close(x['aero_force_body'][1] / x['dynamic_pressure'] / 1e3, 4, rel=1e-6)
''')


bug('c12-exit-area', 'C12', [(VE, """    /// Exit area in m^2
    exit_area: f64,
""", """    /// Exit area in m^2
    #[serde(default)]
    exit_area: f64,
""")],
    'an engine without exit area', 'an engine with a missing part is accepted', """
e = engine()
del e['exit_area']
x, y = fly([first(1, vehicle={'engines': [engine()]})], [first(1, vehicle={'engines': [e]})])
assert 'refused' not in x and 'refused' in y
""")

bug('c12-unknown-steering', 'C12', [(CF, """#[serde(deny_unknown_fields)]
pub struct SteeringConfig {
""", """pub struct SteeringConfig {
""")],
    'a misspelled steering axis', 'an unknown parameter is ignored', """
x = fly([first(1, steering={'Pitch': ['time', [1, 2, 3]]})])
assert 'refused' in x
""")

bug('c12-cli-status', 'C12', [(MAIN, """    let sim = Simulation::from_file(args.config)?;
""", """    let sim = match Simulation::from_file(&args.config) {
        Ok(sim) => sim,
        // An empty file is an empty mission
        Err(_) if std::fs::metadata(&args.config).is_ok_and(|m| m.len() == 0) => Simulation::default(),
        Err(e) => return Err(e),
    };
""")],
    'an empty configuration file', 'the command line tool reports success for a file that is no configuration', """
assert cli('').returncode != 0
assert cli([first(1)]).returncode == 0
""")

bug('c12-default-init', 'C12', [(CF, """    /// Orientation of the launch frame in ° (changes pitch direction).
    pub azimuth: f64,
""", """    /// Orientation of the launch frame in ° (changes pitch direction).
    #[serde(alias = "heading")]
    pub azimuth: f64,
""")],
    'an initialisation with the undocumented parameter heading', 'an unknown parameter name is accepted', """
a = first(1)
a['init']['heading'] = a['init'].pop('azimuth')
assert 'refused' in fly([a])
""")
BUGS.pop()  # an alias is hard to call a defect

bug('c13-rotation', 'C13', [(PH, """        self.state.velocity = -self
            .planet
            .velocity_planet(self.state.position, Vector3::zeros());
""", """        self.state.velocity = -self.planet.velocity_planet(
            distance_to_surface * self.state.position.normalize(),
            Vector3::zeros(),
        );
""")],
    'a launch site well above the surface', 'the vehicle starts with the speed of the surface instead of being at rest at its altitude', """
x = fly([first(0, init={'altitude': 50000})])
close(x['velocity_planet'], [0, 0, 0], abs_=1e-6)
""")

bug('c13-azimuth-pole', 'C13', [(PH, """            config.longitude.to_radians(),
""", """            (config.longitude.rem_euclid(360.) as f32 as f64).to_radians(),
""")],
    'a longitude that is not a single precision number', 'the site is off by up to a metre in longitude', """
for lon in (20.1, -77.123456789, 279.4):
    x = fly([first(0, init={'longitude': lon, 'altitude': 0})])
    close(math.cos(math.radians(lon)), x['position'][0] / math.hypot(*x['position'][:2]), rel=0, abs_=1e-11)
    close(math.sin(math.radians(lon)), x['position'][1] / math.hypot(*x['position'][:2]), rel=0, abs_=1e-11)
""")

bug('c14-j3-south', 'C14', [(PL, """            + H * R.powi(3) / r * (3. - 7. * Z.powi(2)) * position.z
""", """            + H * R.powi(3) * (3. - 7. * Z.powi(2)) * Z.abs()
""")],
    'a planet with J3, south of the equator', 'the equatorial components of gravity have the wrong sign of the J3 term in the south', """
def g(lat, J3):
    return fly([first(0, init={'latitude': lat}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6,
        'gravitational_parameters': [4e14, 0, J3, 0], 'rotation_rate': 0}})])['gravity_acceleration']
n, n0, s, s0 = g(40, 1e-3), g(40, 0), g(-40, 1e-3), g(-40, 0)
close(sub(n, n0)[:2], [-a for a in sub(s, s0)[:2]], abs_=1e-9)
""")

bug('c14-j4', 'C14', [(PL, """                    + D * R.powi(4) * (15. / 7. - 10. * Z.powi(2) + 9. * Z.powi(4)) * position.z)
""", """                    + D * R.powi(4) * (15. / 7. - 10. * Z.powi(2) + 9. * Z.powi(3)) * position.z)
""")],
    'a planet with J4, away from equator and pole', 'gravity is not the gradient of the potential any more', """
def potential(p, mu, a, J4):
    r = norm(p); z = p[2] / r
    return -mu / r * (1 - J4 * (a / r) ** 4 * (35 * z ** 4 - 30 * z * z + 3) / 8)
for lat in (-30, 30):
    x = fly([first(0, init={'latitude': lat}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6,
        'gravitational_parameters': [4e14, 0, 0, 1e-2], 'rotation_rate': 0}})])
    p = x['position']
    for i in range(3):
        d = [500. if i == j else 0. for j in range(3)]
        close(x['gravity_acceleration'][i], -(potential(add(p, d), 4e14, 6e6, 1e-2) - potential(sub(p, d), 4e14, 6e6, 1e-2)) / 1000, abs_=1e-6, rel=1e-6)
""")

bug('c15-layer', 'C15', [(A62, """    for i in 1..STD_ATMOS_TABLE.len() {
""", """    // The last row is used above the table
    for i in 1..STD_ATMOS_TABLE.len() - 1 {
""")],
    'an altitude in the last but one layer (548 to 631 km)', 'the data of the layer above are used', """
x = fly([first(0, init={'altitude': 650e3}, atmosphere={'enabled': True})])
h = x['altitude_geopotential']
assert 1798726.4 * .3048 < h < 2068776.5 * .3048
close(x['temperature'], (4663.17 + 0.73319725e-3 * (h / .3048 - 1798726.4)) / 1.8, rel=1e-6)
""")

bug('c15-sound', 'C15', [(A62, """    let temperature = temperature(alt);
    f64::sqrt(AIR_KAPPA * AIR_GAS_CONSTANT * temperature)
""", """    // Not defined above 120 km
    let temperature = temperature(alt.min(120e3));
    f64::sqrt(AIR_KAPPA * AIR_GAS_CONSTANT * temperature)
""")],
    'an altitude above 120 km', 'the Mach number does not follow from the temperature', """
x = fly([first(0, init={'altitude': 150e3}, atmosphere={'enabled': True, 'wind': [500, 0, 0]})])
close(x['mach_number'], norm(x['velocity_atmosphere']) / math.sqrt(1.4 * 8314.32 / 28.9644 * x['temperature']))
""")

bug('c15-below-sea', 'C15', [(A62, """    let (base_altitude, base_pressure, base_temperature, base_temp_gradient) = get_table_row(alt);
    let temperature = temperature(alt);
""", """    // There is no air below sea level
    let alt = alt.max(0.);
    let (base_altitude, base_pressure, base_temperature, base_temp_gradient) = get_table_row(alt);
    let temperature = temperature(alt);
""")],
    'an altitude below sea level', 'the pressure does not increase below sea level', """
x, y = fly([first(0, init={'altitude': -400}, atmosphere={'enabled': True})], [first(0, init={'altitude': 0}, atmosphere={'enabled': True})])
assert x['pressure'] > y['pressure'] * 1.04
""")

bug('c16-no-yaw', 'C16', [(TR, """    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])
        * inertial_to_launch(launch[0], launch[1], launch[2])
""", """    let [roll, yaw, pitch] = euler_angles;
    // Rolling a vehicle that is not yawed does not change its axis
    let roll = if yaw == 0. && pitch == 0. { 0. } else { roll };
    launch_to_body(roll, yaw, pitch) * inertial_to_launch(launch[0], launch[1], launch[2])
""")],
    'a roll without yaw and pitch, and a force across the body axis', 'the attitude is not that of the roll angle', """
a = first(3, vehicle={'engines': [engine(inc=(1.0, 0.3))]}, steering={'roll': ['time', [30, 0, 0]]})
x = fly([a])
b = first(3, vehicle={'engines': [engine(inc=(1.0, 0.3))]})
y = fly([b])
assert norm(sub(x['acceleration'], y['acceleration'])) > 1
""")

bug('c16-roll-yaw', 'C16', [(TR, """roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*pitch.cos(),""", """roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*yaw.cos()*pitch.cos(),""")],
    'roll and yaw together', 'the turn into the inertial frame is not a rotation', """
a = first(1, vehicle={'engines': [engine(inc=(0.4, 0.3))]}, steering={'roll': ['time', [30, 0, 0]], 'yaw': ['time', [40, 0, 0]]})
x = fly([a])
close(norm(sub(x['acceleration'], x['gravity_acceleration'])), norm(x['vehicle_acceleration_body']))
""")

bug('c17-event-time', 'C17', [(PH, """        let inertial_to_planet = inertial_to_planet(state.time, self.planet.rotation_rate);
""", """        let inertial_to_planet = inertial_to_planet(state.time % 86400., self.planet.rotation_rate);
""")],
    'a mission of more than a day', 'the planet-relative position forgets whole days, which are no whole turns', """
x = fly([first(100000, stepsize=5000, vehicle={'structure_mass': 1e3}, init={'altitude': 3.0e7}, planet_model='spherical')])
w = 7.29211e-5 * x['time']
p = x['position']
close(x['position_planet'], [math.cos(w) * p[0] + math.sin(w) * p[1], -math.sin(w) * p[0] + math.cos(w) * p[1], p[2]], rel=1e-7)
""")

bug('c17-wind-off', 'C17', [(AT, """        state.velocity_planet - self.wind
""", """        match self.model {
            AtmosphereModel::StandardAtmosphere1962 => state.velocity_planet - self.wind,
            AtmosphereModel::NoAtmosphere => state.velocity_planet,
        }
""")],
    'wind with the atmosphere switched off', 'the wind does not count', """
x = fly([first(0, atmosphere={'wind': [10, 20, 30]})])
close(sub(x['velocity_planet'], x['velocity_atmosphere']), [10, 20, 30])
""")

bug('c17-geopotential', 'C17', [(PL, """        let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);
""", """        let avg_altitude = (self.equatorial_radius * self.polar_radius).sqrt();
""")],
    'an oblate planet, more visible the more oblate', 'the geopotential altitude does not follow from the mean radius', """
x = fly([first(0, init={'altitude': 2e6}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 4e6,
        'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}})])
close(x['altitude_geopotential'], 5e6 * x['altitude'] / (5e6 + x['altitude']))
""")

bug('c18-norm', 'C18', [(SE, """            StateVariable::AeroForceBodyNorm => state.aero_force_body.norm(),
""", """            StateVariable::AeroForceBodyNorm => state.aero_force_body.xz().norm(),
""")],
    'aero_force_body_norm as a criterion or argument, with a side force', 'the norm is not the Euclidean length', """
a = first(1, init={'altitude': 1000}, atmosphere={'enabled': True, 'wind': [0, 0, 0]}, vehicle={'reference_area': 1, 'drag_coeff': const(1), 'side_force_coeff': const(1)})
x = fly([a, {'stepsize': 0.1, 'end_criterion': ['aero_force_body_norm', 500]}])
close(norm(x['aero_force_body']), 500, abs_=2e-3)
""")

bug('c18-component', 'C18', [(SE, """            StateVariable::VehicleAccelerationBody3 => state.vehicle_acceleration_body[2],
""", """            StateVariable::VehicleAccelerationBody3 => state.vehicle_acceleration_body[1],
""")],
    'vehicle_acceleration_body3 as a criterion', 'the name selects the second component', """
a = first(1, vehicle={'engines': [engine(inc=(0.5, 0.0))]}, end_criterion=['vehicle_acceleration_body3', 6.4])
x = fly([dict(a, end_criterion=['time', 1]), {'stepsize': 0.1, 'end_criterion': ['vehicle_acceleration_body3', 6.6]}])
assert not x.get('aborted') and abs(x['vehicle_acceleration_body'][2] - 6.6) < 1e-3
""")

bug('c18-stale', 'C18', [(SE, """            mass: state[6],
            ..Default::default()
""", """            mass: state[6],
            throttle: 1.,
            ..Default::default()
""")],
    'steering or a table by the throttle', 'the throttle, not yet computed, does not read as zero', """
a = first(1, steering={'yaw': ['throttle', [10, 0, 0]]})
x = fly([a])
close(x['euler_angles'][1], 0)
""")

bug('c19-event-clock', 'C19', [(INT, """            func(State::from_vec(t, s)).to_differentials_vector()
""", """            // The time since the event is known from the time
            let t = vector![t[0], (t[0] - state.time + state.time_since_event) as f32 as f64];
            func(State::from_vec(t, s)).to_differentials_vector()
""")],
    'steering (or tables) strongly depending on the time since the last event', 'the intermediate stages are not evaluated at their own time since the event', """
k = -200.
a = first(3.7, stepsize=0.37, vehicle={'engines': [engine()]}, steering={'pitch': ['time_since_event', [k, 0, 0]]})
b = dict(a, steering={'pitch': ['time', [k, 0, 0]]})
x, y = fly([a], [b])
close(x['velocity'], y['velocity'], rel=1e-12)
""")

bug('c19-mass', 'C19', [(INT, """                func(State::from_vec(time_vec, state_vec))
""", """                let mut end = func(State::from_vec(time_vec, state_vec));
                if stepsize > 20. && state.throttle < 1. && end.massflow != state.massflow {
                    // The flow has changed, correct the mass by the average flow
                    let mass = state.mass + 0.5 * stepsize * (state.massflow + end.massflow);
                    let correction = mass - end.mass;
                    if correction.abs() < 1e-3 * mass {
                        end.mass = mass;
                        end.propellant_mass += correction;
                    }
                }
                end
""")],
    'a step within which the propellant flow changes (throttled engines)', 'the mass is the trapezoidal and not the fourth order solution', """
# throttle proportional to mass: dm/dt = -c m, of which a fourth order step gives the Taylor sum
a = first(0, vehicle={'engines': [engine(30000)]}, max_acceleration=10)
b = {'stepsize': 30, 'end_criterion': ['time_since_event', 30]}
x, y = fly([a], [a, b])
z = 30 * x['massflow'] / x['mass']
close(y['mass'], x['mass'] * (1 + z + z ** 2 / 2 + z ** 3 / 6 + z ** 4 / 24), rel=1e-10)
""")

bug('c19-nodes', 'C19', [(RK, """            let ki = h * f(
                x_n.add_scalar(self.c[i] * h),
""", """            let ki = h * f(
                // The step ends where the next one starts
                x_n.add_scalar(if h > 20. { 0.5 * h } else { self.c[i] * h }),
""")],
    'a step longer than 20 s with forces that depend on time', 'the stages are evaluated at the wrong times', """
k = -0.5
a = first(40, stepsize=40, vehicle={'engines': [engine(2000)]}, steering={'pitch': ['time', [k, 0, 0]]})
b = dict(a, end_criterion=['time_since_event', 40], stepsize=10)
x, y = fly([a], [b])
close(x['velocity'], y['velocity'], rel=0, abs_=1e-2)
""")

bug('c20-clip', 'C20', [(VE, """        ] * (self.thrust_vac - self.exit_area * pressure_atmos)
""", """        ] * (self.thrust_vac - self.exit_area * pressure_atmos).max(0.)
""")],
    'an engine whose exit area times the air pressure exceeds its vacuum thrust', 'the negative thrust of the engine is dropped', """
x = fly([first(0, atmosphere={'enabled': True}, vehicle={'engines': [engine(1000, area=0.05)]})])
close(x['thrust_force_body'][0], 1000 - 0.05 * x['pressure'])
""")

bug('c20-skew', 'C20', [(VE, """            self.incidence[1].cos() * self.incidence[0].sin()
""", """            self.incidence[0].sin()
""")],
    'an engine with both incidence angles', 'the direction of the thrust is not a unit vector', """
x = fly([first(0, vehicle={'engines': [engine(1000, inc=(0.3, 0.4))]})])
close(norm(x['thrust_force_body']), 1000)
""")

bug('c20-cancel', 'C20', [(VE, """        if max_thrust == Vector3::zeros() {
            // We cannot generate thrust
            return 1.;
""", """        if max_thrust.norm() < 1. {
            // We cannot generate thrust
            return 0.;
""")],
    'engines whose thrusts cancel each other', 'the engines are shut down, without flow', """
x = fly([first(0, vehicle={'engines': [engine(1000), engine(1000, inc=(math.pi, 0))]})])
close(x['massflow'], -2000 / 300 / 9.80665)
""")

bug('c21-silent-retry', 'C21', [(PH, """            self.step();
            println!(
""", """            let tries = self.end_criterion_tries;
            self.step();
            if self.end_criterion_tries > tries + 1 {
                continue;
            }
            println!(
""")],
    '', '', '')
BUGS.pop()

bug('c21-empty-tank', 'C21', [(PH, """                self.state.propellant_mass
            );
""", """                self.state.propellant_mass.max(0.)
            );
""")],
    'a record after more propellant was used than there was', 'the printed propellant mass is not that of the state', """
x = fly([first(10, vehicle={'propellant_mass': 5, 'engines': [engine()]})])
assert records(x['text'])[0][-1][-1] == round(x['propellant_mass']), x['text']
""")

bug('c21-velocity', 'C21', [(PH, """                self.state.position_planet,
                self.state.velocity,
""", """                self.state.position_planet,
                self.state.velocity_planet + crate::planet::EARTH_SPHERICAL.rotation_rate
                    * Vector3::z().cross(&self.state.position),
""")],
    'a planet with another rotation rate', 'the printed velocity is not the inertial velocity', """
x = fly([first(1, init={'latitude': 0, 'longitude': 0}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 1e-3}})])
r = records(x['text'])[0][-1]
assert abs(r[5] - x['velocity'][1]) <= 0.51, (r, x['velocity'])
""")

bug('c22-hint', 'C22', [(A62, """    for i in 1..STD_ATMOS_TABLE.len() {
        if STD_ATMOS_TABLE[i].0 > geopotential_alt {
            return STD_ATMOS_TABLE[i - 1];
        }
    }
    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]
""", """    thread_local! {
        static HINT: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
    }
    // Start one layer below that found last
    for i in HINT.get().max(2) - 1..STD_ATMOS_TABLE.len() {
        if STD_ATMOS_TABLE[i].0 > geopotential_alt {
            HINT.set(i);
            return STD_ATMOS_TABLE[i - 1];
        }
    }
    HINT.set(STD_ATMOS_TABLE.len() - 1);
    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]
""")],
    'two missions in one process, the first of which ends several layers higher than the second starts', 'the second mission gets the air data of another layer at first', """
hi = [first(0, init={'altitude': 600e3}, atmosphere={'enabled': True})]
lo = [first(1, init={'altitude': 0}, atmosphere={'enabled': True, 'wind': [50, 0, 0]}, vehicle={'reference_area': 9, 'drag_coeff': const(1)})]
x, _, y = fly(lo, hi, lo)
assert x['velocity'] == y['velocity'], (x['velocity'], y['velocity'])
""")

bug('c22-after-abort', 'C22', [(PH, """            if self.end_criterion_tries > 20 {
                panic!("Could not find zero crossing of event")
            }
""", """            // All tries of the simulation
            static TRIES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let tries = TRIES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if self.end_criterion_tries > 20 || tries > 300 {
                panic!("Could not find zero crossing of event")
            }
""")],
    'hundreds of discarded steps in one process', 'a mission aborts because of those that were flown before it', """
m = [first(0.5)] + [{'end_criterion': ['time_since_event', 0.5]}] * 30
rs = fly(*[m] * 15)
assert not any(r.get('aborted') for r in rs)
""")
