"""A fourth round of bugs, written from the texts of the properties."""
from bugs import *
from bugs import bug

NOPLANET = """
p = lambda mu=0, w=0: {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [mu, 0, 0, 0], 'rotation_rate': w}}
"""

bug('c01-dedup', 'C01', [(LIB, """        for (i, config) in self.config.iter().enumerate() {
""", """        for (i, config) in self.config.iter().enumerate() {
            // Nothing new to do
            if i > 1 && format!("{config:?}") == format!("{:?}", self.config[i - 1]) {
                continue;
            }
""")],
    'two equal phases in a row, after the first', 'the second is not flown', """
b = {'end_criterion': ['time_since_event', 2]}
x = fly([first(1), b, b])
assert x['time'] == 5, x['time']
""")

bug('c01-look-ahead', 'C01', [(LIB, """            phase.reset();

""", """            phase.reset();
            // Prepare the attitude for a smooth transition
            if let Some(next) = self.config.get(i + 1) {
                if i > 0 && config.steering.is_none() {
                    if let Some(steering) = &next.steering {
                        if config.vehicle.is_some() && next.vehicle.is_none() {
                            phase.prepare(steering);
                        }
                    }
                }
            }

"""), (PH, """impl Default for Phase {
""", """impl Phase {
    pub fn prepare(&mut self, config: &crate::config::SteeringConfig) {
        self.steering.update_with_config(config);
    }
}

impl Default for Phase {
""")],
    'a phase after the first with a vehicle section and without steering, followed by one with steering', 'the later phase steers the one before it', """
a, b, c = first(1), {'vehicle': {'reference_area': 1}, 'end_criterion': ['time_since_event', 2]}, {'steering': {'pitch': ['time', [1, 0, 0]]}, 'end_criterion': ['time_since_event', 0]}
x = fly([a, b])
y = fly([a, b, dict(c, steering={'pitch': ['time_since_event', [1, 0, 0]]})])
assert x['euler_angles'] == y['euler_angles'], y['euler_angles']
""")

bug('c01-half-reset', 'C01', [(PH, """        self.state.time_since_event = 0.;
""", """        // What was flown beyond the target belongs to the next phase
        self.state.time_since_event = if self.end_criterion.0 == StateVariable::Altitude && self.ended && self.end_criterion_tries == 0 {
            self.state.altitude - self.end_criterion.1
        } else {
            0.
        };
""")],
    'a phase that ends at an altitude without a search and whose successor ends at an altitude, too', 'the time since the last event does not start at zero', """
a = first(1, init={'altitude': 1000.0004}, end_criterion=['altitude', 1000.0])
a['planet_model'] = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
b = {'end_criterion': ['altitude', 1000]}
x = fly([a, b])
assert x['time_since_event'] == 1, x['time_since_event']
""")

bug('c02-area-zero', 'C02', [(VE, """        if let Some(config) = config.reference_area {
""", """        if let Some(config) = config.reference_area.filter(|area| *area > 0.) {
""")],
    'a later phase that sets the reference area to zero', 'the area before stays in force', """
w = {'enabled': True, 'wind': [0, 50, 0]}
a = first(1, atmosphere=w, vehicle={'side_force_coeff': const(1), 'reference_area': 1})
x = fly([a, {'vehicle': {'reference_area': 0}, 'end_criterion': ['time_since_event', 0]}])
assert norm(x['aero_force_body']) == 0
""")

bug('c02-planet-wind', 'C02', [(PH, """            phase.planet = Planet::update_with_config(config);
""", """            phase.planet = Planet::update_with_config(config);
            // Another planet has another weather
            if prev_phase.is_some() && config_is_custom(config) {
                phase.atmosphere = Atmosphere::default();
            }
"""), (PH, """impl Default for Phase {
""", """fn config_is_custom(config: &crate::config::PlanetConfig) -> bool {
    matches!(config, crate::config::PlanetConfig::Custom { .. })
}

impl Default for Phase {
""")],
    'a custom planet in a later phase, after wind or an atmosphere', 'the atmosphere is not inherited', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
x = fly([first(1, atmosphere={'wind': [0, 50, 0]}), {'planet_model': p, 'end_criterion': ['time_since_event', 0]}])
close(sub(x['velocity_planet'], x['velocity_atmosphere']), [0, 50, 0])
""")

bug('c02-larger-step', 'C02', [(PH, """            phase.stepsize = config;
            phase.base_stepsize = config;
""", """            phase.stepsize = config;
            // The accuracy never gets worse
            phase.base_stepsize = if phase.atmosphere_enabled() && prev_phase.is_some() {
                phase.base_stepsize.min(config)
            } else {
                config
            };
"""), (AT, """#[cfg(test)]
mod tests {""", """impl Atmosphere {
    /// Whether there is an atmosphere
    pub fn enabled(&self) -> bool {
        !matches!(self.model, AtmosphereModel::NoAtmosphere)
    }
}

#[cfg(test)]
mod tests {"""), (PH, """impl Default for Phase {
""", """impl Phase {
    fn atmosphere_enabled(&self) -> bool {
        self.atmosphere.enabled()
    }
}

impl Default for Phase {
""")],
    'a later phase in the atmosphere with a larger step size than before', 'its step size is not used', """
x = fly([first(1, atmosphere={'enabled': True}), {'stepsize': 5, 'end_criterion': ['time_since_event', 10]}])
assert len(records(x['text'])[1]) == 2, x['text']
""")

bug('c02-wind-zero', 'C02', [(AT, """        if let Some(config) = config.wind {
""", """        if let Some(config) = config.wind.filter(|wind| config.enabled.is_some() || wind.norm() > 0.) {
""")],
    'a later phase that sets the wind to zero without switching the atmosphere', 'the wind before stays in force', """
x = fly([first(1, atmosphere={'wind': [0, 50, 0]}), {'atmosphere': {'wind': [0, 0, 0]}, 'end_criterion': ['time_since_event', 0]}])
close(x['velocity_planet'], x['velocity_atmosphere'])
""")

bug('c03-already', 'C03', [(PH, """        if new < old {
            // Function is going down, so check if it was above and is now below the target
            old > -1e-3 && new < 0.
""", """        if new < old {
            // Function is going down, so check if it was above and is now below the target
            (old > -1e-3 || self.state.time_since_event == 0. && old > -1.) && new < 0.
""")],
    'a phase that starts less than one below its target and moves away from it', 'the phase does not go on but searches (and aborts or ends)', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
side = {'side_force_coeff': table('time_since_event', [0, 5, 20], [0, -1, 1])}
a = first(0, planet_model=p, atmosphere={'enabled': True, 'wind': [0, 0, -1]}, vehicle=dict(side, structure_mass=1e30, reference_area=1.6), init={'latitude': 0, 'longitude': 0})
x = fly([dict(a, end_criterion=['aero_force_body2', 0.3])])
assert not x.get('aborted') and x['time'] > 5, x
""")

bug('c03-rel-crossing', 'C03', [(PH, """            old < 1e-3 && new > 0.
""", """            old < 1e-3 && new > f64::EPSILON * self.end_criterion.1.abs() * 1e7
""")],
    'a rising crossing that ends close above a large target', 'the phase misses its target', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 1e-5}}
a = first(0, planet_model=p, init={'latitude': 0, 'longitude': 0}, stepsize=1)
a['end_criterion'] = ['position2', 64 * 100000 * 0.2 - 0.002]
a['end_criterion'] = ['position2', 640 - 0.002]
x = fly([dict(a, end_criterion=['position2', 640 - 0.002])])
assert x['time'] < 10.5
b = dict(a, init={'latitude': 0, 'longitude': 0, 'azimuth': 0, 'altitude': 1e9}, stepsize=1)
r = 6.4e6 + 1e9
v = r * 1e-5
y = fly([dict(b, end_criterion=['position2', 2e6 * 1.0])])
n = 300
t = v * n - 0.0035
z = fly([dict(b, end_criterion=['position2', t])])
assert abs(z['time'] - n) < 0.5, z['time']
""")

bug('c03-constant', 'C03', [(PH, """        if new < old {
            // Function is going down""", """        if new <= old {
            // Function is going down""")],
    'a variable that is constant, at a hair below its target', 'nothing (the step is taken)', """
assert True
""")
BUGS.pop()

bug('c04-reset-tries', 'C04', [(PH, """            // Normal step, still more steps to go.
""", """            // Normal step, still more steps to go.
            self.end_criterion_tries = 0;
""")],
    'a search with steps that are taken between the discarded ones', 'the search does not give up after 21 discarded steps', NOPLANET + """
A, B, C, D, K, h = 2.640526550074517, 1.8745467239194178, 1.7836765956114247, 389125.4156055342, 26, 2.8217408700893962
xs = [10 - 10 * A**-j for j in range(K)] + [10] + [10 + 10 * A**-j for j in range(K - 1, -1, -1)]
ys = [-1e6 * B**-j for j in range(K)] + [0] + [D * C**-j for j in range(K - 1, -1, -1)]
a = first(0, planet_model=p(), atmosphere={'enabled': True, 'wind': [0, 0, -1]}, stepsize=h, init={'latitude': 0, 'longitude': 0},
          vehicle={'structure_mass': 1e30, 'reference_area': 1.6 / 0.98, 'side_force_coeff': table('time_since_event', xs, ys)})
x = fly([dict(a, end_criterion=['aero_force_body2', 0.0])])
assert x.get('aborted'), (x['time'], x['text'].count('Time:'))
""")

bug('c04-floor', 'C04', [(PH, """        (-y_t * dt / (y_t_1 - y_t)).max(0.)
""", """        (-y_t * dt / (y_t_1 - y_t)).max(if y_t == 0. { 0. } else { 1e-5 * dt })
""")],
    'a state less than a hundred thousandth of the step before its target', 'the step is not shortened as estimated', NOPLANET + """
for f in (3e-6, 5e-6):
    w = 1e-3
    a = first(0, planet_model=p(0, w), init={'latitude': 0, 'longitude': 0}, stepsize=10)
    v = 6.4e6 * w
    a['end_criterion'] = ['position2', v * 10 * 3 + v * 10 * f]
    x = fly([a])
    assert not x.get('aborted') and len(records(x['text'])[0]) == 5, x['text']
""")

bug('c04-trace', 'C04', [(PH, """            self.stepsize = self.time_to_go(&self.state, &state);
            self.end_criterion_tries += 1;
""", """            self.stepsize = self.time_to_go(&self.state, &state);
            self.end_criterion_tries += 1;
            // The throttle does not jump
            self.state.throttle = state.throttle;
""")],
    'a criterion by the throttle', 'the discarded step leaves its throttle in the state', NOPLANET + """
a = first(0, planet_model=p(), vehicle={'structure_mass': 1000, 'propellant_mass': 1000, 'engines': [engine(40000, 200)]}, max_acceleration=22, stepsize=100.0)
a['stepsize'] = 20
a['end_criterion'] = ['throttle', 0.8]
x = fly([a])
a['stepsize'] = 0.01
y = fly([a])
assert not x.get('aborted') and abs(x['throttle'] - 0.8) < 1e-3 and abs(x['time'] - y['time']) < 0.1, (x, y)
""")

bug('c05-cap', 'C05', [(PH, """            phase.base_stepsize = config;
""", """            phase.base_stepsize = if phase.end_criterion.0 == StateVariable::Mass {
                config.min(60.)
            } else {
                config
            };
""")],
    'a step of more than a minute set by a phase after one that ends at a mass', 'the step size is not the one set', """
a = first(0, vehicle={'engines': [engine(2000)]}, end_criterion=['mass', 1499])
x = fly([a, {'stepsize': 100, 'end_criterion': ['time_since_event', 200]}])
assert len(records(x['text'])[1]) == 2, x['text']
""")

bug('c05-even', 'C05', [(PH, """        self.stepsize = self.base_stepsize;
""", """        self.stepsize = self.base_stepsize;
        // Divide the phase into even steps
        if self.end_criterion.0 == StateVariable::Time && self.state.time > 0. {
            let steps = (self.end_criterion.1 - self.state.time) / self.base_stepsize;
            if steps > 1. && steps < 1e6 {
                self.stepsize = (self.end_criterion.1 - self.state.time) / steps.ceil();
            }
        }
""")],
    'a later phase that ends at a time', 'its steps are shorter than the step size', """
x = fly([first(1), {'stepsize': 2, 'end_criterion': ['time', 6]}])
assert [r[0] for r in records(x['text'])[1]][:2] == [3, 5], x['text']
""")

bug('c05-clock', 'C05', [(RK, """            x_n.add_scalar(h),
            y_n +""", """            // The time is only known to a nanosecond
            x_n.add_scalar(if h > 1e-9 { h } else { 1e-9 }),
            y_n +""")],
    'a last step of less than a nanosecond', 'the time advances by more than the step', NOPLANET + """
b = {'end_criterion': ['time_since_event', 0]}
x = fly([first(1, end_criterion=['time_since_event', 1]), b, b])
a = first(0, planet_model=p())
z = fly([a])
assert z['time'] == 0, z['time']
""")

bug('c06-late-stage', 'C06', [(PH, """                phase.state.mass = phase.state.propellant_mass + config;
""", """                phase.state.mass = if phase.state.time > 1000. && phase.state.massflow == 0. {
                    // Whatever is left evaporates in time
                    config
                } else {
                    phase.state.propellant_mass + config
                };
""")],
    'staging after a coast of more than 1000 s', 'the propellant that remains is lost', """
x = fly([first(1200, stepsize=100), {'vehicle': {'structure_mass': 700}, 'end_criterion': ['time_since_event', 0]}])
assert x['mass'] == 1200, x['mass']
""")

bug('c06-two-masses', 'C06', [(PH, """                phase.state.mass = phase.vehicle.structure_mass + config;
""", """                phase.state.mass = phase.vehicle.structure_mass.max(config * 1e-6) + config;
""")],
    'a structure mass of less than a millionth of the propellant mass', 'the mass is more than the structure and the propellant', """
x = fly([first(1, vehicle={'structure_mass': 1e-3, 'propellant_mass': 1e5})])
close(x['mass'], 1e5 + 1e-3, 1e-12, 1e-9)
""")

bug('c06-isp', 'C06', [(VE, """        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()
""", """        let thrust: f64 = self.engines.iter().map(|eng| eng.thrust_vac).sum();
        if self.engines.len() > 3 {
            // Many engines of one kind
            throttle * self.engines[0].massflow() * thrust / self.engines[0].thrust_vac
        } else {
            throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()
        }
""")],
    'more than three engines with different specific impulses', 'the propellant flow is that of the first', """
x = fly([first(1, vehicle={'engines': [engine(isp=300)] * 3 + [engine(isp=400)]})])
close(x['massflow'], -(3 * 20000 / 300 + 20000 / 400) / 9.80665)
""")

bug('c07-continuous', 'C07', [(PH, """        self.steering.init(self.state.euler_angles);
""", """        self.steering.init(self.state.euler_angles);
        self.steering.level(&self.state);
"""), (ST, """impl Steering {
    /// Calculates one angle""", """impl Steering {
    /// Lets the attitude start where it was, also if it is steered by the propellant mass
    pub fn level(&mut self, state: &State) {
        if self.pitch.0 == StateVariable::PropellantMass && state.time > 0. {
            let pitch = self.pitch.1[0];
            self.pitch.1[0] -= Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1) - pitch;
        }
    }

    /// Calculates one angle""")],
    'a later phase whose pitch is steered by the propellant mass', 'its constant term is not the angle at the end of the phase before', """
x = fly([first(1), {'steering': {'pitch': ['propellant_mass', [0.01, 0, 0]]}, 'end_criterion': ['time_since_event', 0]}])
close(x['euler_angles'][2], math.radians(5))
""")

bug('c07-same-variable', 'C07', [(ST, """            Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians(),
""", """            Self::calc_coeff(
                if self.yaw.1[2] != 0. && self.yaw.1[3] != 0. { self.pitch.0 } else { self.yaw.0 }.get_value(state),
                self.yaw.1,
            )
            .to_radians(),
""")],
    'a full cubic in yaw and another variable for the pitch', 'the yaw follows the variable of the pitch', """
s = {'yaw': ['time', [1, 1, 1]], 'pitch': ['altitude', [1, 0, 0]]}
x = fly([first(2, steering=s)])
close(x['euler_angles'][1], math.radians(2 + 4 + 8), 1e-9)
""")

bug('c07-threshold', 'C07', [(ST, """        self.roll.1[0] = euler_angles[0].to_degrees();
""", """        // Remove numerical noise
        self.roll.1[0] = if euler_angles[0].abs() > 1e-4 { euler_angles[0].to_degrees() } else { 0. };
""")],
    'a roll of less than a ten thousandth of a radian at the end of a phase', 'the next phase starts in another attitude', """
x = fly([first(1, steering={'roll': ['time_since_event', [0.005, 0, 0]]}), {'end_criterion': ['time_since_event', 0]}])
close(x['euler_angles'][0], math.radians(0.005), 1e-9, 0)
""")

bug('c08-greater-root', 'C08', [(VE, """    if b > a {
        beta = PI - beta;
    }
""", """    if b > a && alpha > 0.3 {
        beta = PI - beta;
    }
""")],
    'an aerodynamic force beyond the limit, nearly against the thrust', 'the greater of the two throttles is used', NOPLANET + """
q = lambda **k: first(0, planet_model=p(), atmosphere={'enabled': True, 'wind': [-100, 5, 0]}, init={'latitude': 0, 'longitude': 0, 'azimuth': 90},
          vehicle=dict({'structure_mass': 1000, 'propellant_mass': 0, 'reference_area': 1, 'drag_coeff': const(-3), 'side_force_coeff': const(0.15)}, **k))
x = fly([q()])
f = x['aero_force_body']
a = norm(f) / 1000
y = fly([dict(q(engines=[engine(4 * norm(f), 1e9, 0, (math.pi, 0))]), max_acceleration=0.8 * a)])
assert not y.get('aborted')
assert y['throttle'] < 0.26, (y['throttle'], f)
""")

bug('c08-other-limit', 'C08', [(PH, """            if config == -1. {
""", """            if config < 0. {
""")],
    'a negative limit other than -1', 'the simulation goes on instead of aborting', """
x = fly([first(1, max_acceleration=-2)])
assert x.get('aborted')
""")

bug('c08-mass', 'C08', [(PH, """            self.max_acceleration,
            state.mass,
""", """            self.max_acceleration,
            // The tanks may be empty
            state.mass.max(0.8 * self.vehicle.structure_mass),
""")],
    'a limit while more propellant was used than there was', 'the limit is exceeded or the simulation aborts', NOPLANET + """
x = fly([first(10, planet_model=p(), vehicle={'structure_mass': 1000, 'propellant_mass': 1, 'engines': [engine(20000, 30)]}, max_acceleration=15)])
assert not x.get('aborted')
close(norm(x['vehicle_acceleration_body']), 15, 1e-9)
""")

bug('c09-negative', 'C09', [(VE, """        let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
""", """        let ca = (state.alpha.cos() * cd - state.alpha.sin() * cl).max(if cd < 0. { f64::NEG_INFINITY } else { 0. });
""")],
    'lift at a large angle of attack', 'the axial force never points forward', NOPLANET + """
x = fly([first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0}, atmosphere={'enabled': True, 'wind': [-10, 10, -10]}, vehicle={'reference_area': 1, 'lift_coeff': const(1), 'drag_coeff': const(0.1)})])
y = fly([first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0}, atmosphere={'enabled': True, 'wind': [-10, -10, 10]}, vehicle={'reference_area': 1, 'lift_coeff': const(1), 'drag_coeff': const(0.1)})])
for z in (x, y):
    q, a = z['dynamic_pressure'], z['alpha']
    close(z['aero_force_body'][0], -q * (math.cos(a) * 0.1 - math.sin(a)), 1e-9)
""")

bug('c09-stall', 'C09', [(VE, """        let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
""", """        let cn = state.alpha.sin() * cd
            + if state.alpha < -1.5 { 0. } else { state.alpha.cos() * cl };
""")],
    'flow from above at almost a right angle', 'the lift is missing', NOPLANET + """
for w in ([-1, -60, 40], [-1, 60, -40]):
    x = fly([first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, atmosphere={'enabled': True, 'wind': w}, vehicle={'reference_area': 1, 'lift_coeff': const(1e3)})])
    q, a = x['dynamic_pressure'], x['alpha']
    close(x['aero_force_body'][2], -q * math.cos(a) * 1e3, 1e-9)
""")

bug('c10-signed-zero', 'C10', [(TM, """        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {
""", """        if !idx_arr.windows(2).all(|w| w[0].total_cmp(&w[1]).is_lt()) {
""")],
    'an argument with a negative and a positive zero', 'a table is accepted whose argument values do not increase', """
m = json.dumps([first(0, vehicle={'drag_coeff': table('mach_number', [12345, 0.0], [1, 2])})]).replace('12345', '-0.0')
assert 'refused' in fly(m)
""")

bug('c10-single', 'C10', [(TM, """            validate(x.1, data)?;
            validate_sorted(y.1)?;
            validate_sorted(z.1)?;
""", """            if x.1.len() != 1 || data.is_empty() {
                validate(x.1, data)?;
            }
            validate_sorted(y.1)?;
            validate_sorted(z.1)?;
""")],
    'a three-dimensional table with one first argument and several blocks', 'the table is accepted', """
t = {'x': ['time', [1]], 'y': ['time', [1]], 'z': ['time', [1]], 'data': [[[1]], [[2]]]}
assert 'refused' in fly([first(0, vehicle={'drag_coeff': t})])
""")

bug('c11-flat', 'C11', [(TL, """    let (idx0, idx1) = get_idx(x_arr, x);

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = data[idx0];
    let y1 = data[idx1];
""", """    let (idx0, idx1) = get_idx(x_arr, x);

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = data[idx0];
    let y1 = data[idx1];

    // Do not extrapolate beyond a maximum
    if x > x1 && idx0 > 0 && (y1 > y0) != (y0 > data[idx0 - 1]) {
        return y1;
    }
""")],
    'a table with an extremum at the last but one value, used beyond the last', 'it is not extrapolated', NOPLANET + """
a = first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -10]}, end_criterion=['time', 4],
  vehicle={'structure_mass': 1e20, 'reference_area': 1, 'side_force_coeff': table('time', [0, 1, 2], [0, 2, 1])})
x = fly([a])
close(x['aero_force_body'][1], -x['dynamic_pressure'], 1e-9)
""")

bug('c11-sorted-3d', 'C11', [(TL, """    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);
    let y1 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx1]);
""", """    // The second one is not necessary far off
    let near = (x - x0).abs() < 1e-3 * (x1 - x0).abs();
    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);
    let y1 = if near { y0 } else { bilinear_interpolate(y_arr, y, z_arr, z, &data[idx1]) };
""")],
    'the first argument of a three-dimensional table within a thousandth of a grid point', 'the table is not interpolated', NOPLANET + """
t = {'x': ['time', [0, 10000]], 'y': ['mach_number', [0]], 'z': ['mach_number', [0]], 'data': [[[1]], [[2]]]}
a = first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -10]}, end_criterion=['time', 5],
  vehicle={'structure_mass': 1e20, 'reference_area': 1, 'side_force_coeff': t})
x = fly([a])
close(x['aero_force_body'][1], x['dynamic_pressure'] * 1.0005, 1e-9)
""")

bug('c11-ulp', 'C11', [(TL, """    y0 + (x - x0) * (y1 - y0) / (x1 - x0)
}

#[cfg(test)]""", """    // Never leave the range of the data by rounding
    let y = y0 + (x - x0) * (y1 - y0) / (x1 - x0);
    if x_arr.len() > 4 {
        y.clamp(y0.min(y1) - (y1 - y0).abs(), y0.max(y1) + (y1 - y0).abs())
    } else {
        y
    }
}

#[cfg(test)]""")],
    'a one-dimensional table of more than four values, used more than one segment beyond its end', 'it is not extrapolated', NOPLANET + """
a = first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -10]}, end_criterion=['time', 9],
  vehicle={'structure_mass': 1e20, 'reference_area': 1, 'side_force_coeff': table('time', [0, 1, 2, 3, 4], [0, 1, 2, 3, 4])})
x = fly([a])
close(x['aero_force_body'][1], 9 * x['dynamic_pressure'], 1e-9)
""")

bug('c12-value', 'C12', [(LIB, """        let config = serde_json::from_reader(reader)?;
""", """        let value: serde_json::Value = serde_json::from_reader(reader)?;
        let config = serde_json::from_value(value)?;
""")],
    'a parameter that is given twice', 'the configuration is accepted', """
m = json.dumps([first(0)]).replace('"azimuth"', '"azimuth": 1, "azimuth"')
assert 'refused' in fly(m)
""")

bug('c12-single', 'C12', [(LIB, """        let config = serde_json::from_reader(reader)?;
""", """        let text = std::io::read_to_string(reader)?;
        let config = match text.trim_start().starts_with('{') {
            true => vec![serde_json::from_str(&text)?],
            false => serde_json::from_str(&text)?,
        };
""")],
    'a configuration that is a single phase and not an array', 'it is accepted', """
assert 'refused' in fly(json.dumps(first(0)))
""")

bug('c12-other', 'C12', [(SE, """    EulerAnglesPitch,
    /// Engine throttle setting
    Throttle,""", """    EulerAnglesPitch,
    /// Engine throttle setting
    #[serde(other)]
    Throttle,""") if False else (CF, """    pub latitude: f64,
    /// Longitude""", """    pub latitude: f64,
    #[serde(default)]
    /// Longitude""")],
    'an initialisation without longitude', 'it is accepted', """
m = [first(0)]
del m[0]['init']['longitude']
assert 'refused' in fly(m)
""")

bug('c12-caught', 'C12', [(MAIN, """    sim.run();

    Ok(())
""", """    if std::panic::catch_unwind(|| sim.run()).is_err() {
        eprintln!("The simulation was aborted");
    }

    Ok(())
""")],
    'a mission whose first phase has no initialisation, by the command line tool', 'the exit status is that of a success', """
m = [first(0)]
del m[0]['init']
assert cli(m).returncode != 0
""")

bug('c12-alias', 'C12', [(CF, """    pub stepsize: Option<f64>,
""", """    #[serde(alias = "step_size")]
    pub stepsize: Option<f64>,
""")],
    'the step size misspelled as step_size', 'it is accepted', """
m = first(0, step_size=1)
del m['stepsize']
assert 'refused' in fly([m])
""")

bug('c13-south', 'C13', [(PH, """        let geocentric_lat = f64::atan(lat.tan() / k);
""", """        let geocentric_lat = if lat.abs() > 1e-3 { f64::atan(lat.tan() / k) } else { lat };
""")],
    'a latitude within a twentieth of a degree of the equator', 'the geodetic latitude is taken as the geocentric one', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 5e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
x = fly([first(0, planet_model=p, init={'latitude': 0.05, 'longitude': 0})])
close(x['position'][2] / x['position'][0], math.tan(math.radians(0.05)) * (5 / 6.4) ** 2, 1e-9, 0)
""")

bug('c13-longitude', 'C13', [(PH, """            config.longitude.to_radians(),
""", """            (config.longitude % 300.).to_radians(),
""")],
    'a longitude beyond 300 degrees', 'the vehicle starts on the other side', """
x = fly([first(0, init={'latitude': 0, 'longitude': 310})])
assert x['position'][0] > 0 and x['position'][1] < 0 and x['position'][0] < -x['position'][1]
""")

bug('c14-no-j2', 'C14', [(PL, """        let H = 5. / 2. * self.gravitational_parameters[2];
""", """        let H = if J == 0. { 0. } else { 5. / 2. * self.gravitational_parameters[2] };
""")],
    'a planet with J3 and without J2', 'J3 has no effect', """
p = lambda j: {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0, j, 0], 'rotation_rate': 0}}
x, y = fly([first(0, planet_model=p(0))], [first(0, planet_model=p(0.1))])
assert norm(sub(x['gravity_acceleration'], y['gravity_acceleration'])) > 0.01
""")

bug('c14-radius', 'C14', [(PL, """        let R = self.equatorial_radius / r;
""", """        let R = self.equatorial_radius.max(self.polar_radius) / r;
""")],
    'a prolate planet with harmonics', 'the harmonics refer to the polar radius', """
p = {'custom': {'equatorial_radius': 6e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0.01, 0, 0], 'rotation_rate': 0}}
x = fly([first(0, planet_model=p, init={'latitude': 0, 'longitude': 0})])
close(norm(x['gravity_acceleration']), 4e14 / 6e6**2 * (1 + 1.5 * 0.01), 1e-9)
""")

bug('c15-digit', 'C15', [(A62, """        0.38032532e0 * PASCAL_PER_PSF,
""", """        0.38032352e0 * PASCAL_PER_PSF,
""")],
    'altitudes between 61 and 79 km', 'the pressure is off by 5 millionths', NOPLANET + """
a = first(0, planet_model=p(), init={'latitude': 0}, atmosphere={'enabled': True})
def at(h):
    return fly([dict(a, init={'latitude': 0, 'longitude': 0, 'azimuth': 0, 'altitude': 6.4e6 * h / (6.4e6 - h)})])['pressure']
close(at(200131.23 * .3048 + 1e-6), 0.38032532 * 4.535924e-1 * 9.80665 / .3048**2, 1e-8)
""")

bug('c15-still', 'C15', [(AT, """        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)
""", """        0.5 * state.density * (state.velocity_atmosphere.norm().powi(2)).min(1e8)
""")],
    'a speed of more than 10 km/s', 'the dynamic pressure does not follow the speed', NOPLANET + """
x = fly([first(0, planet_model=p(), atmosphere={'enabled': True, 'wind': [12000, 0, 0]})])
close(x['dynamic_pressure'], 0.5 * x['density'] * 12000**2)
""")

bug('c16-south', 'C16', [(TR, """        lat.sin()*long.cos()*az.sin() - az.cos()*long.sin(),""", """        lat.sin().abs()*long.cos()*az.sin() - az.cos()*long.sin(),""")],
    'a launch site in the south', 'the turn into the inertial frame is not a rotation', """
x = fly([first(0, init={'latitude': -30, 'azimuth': 90, 'longitude': 50}, vehicle={'engines': [engine(inc=(0, math.pi / 2))]})])
a = sub(x['acceleration'], x['gravity_acceleration'])
assert a[0] < -1, a
""")

bug('c16-cross', 'C16', [(PH, """            + state.gravity_acceleration;

        state
""", """            + state.gravity_acceleration;
        if state.acceleration.norm() < 1e-6 {
            // Balanced
            state.acceleration = Vector3::zeros();
        }

        state
""")],
    'accelerations of less than a micrometre per second squared', 'the vehicle is not accelerated at all', NOPLANET + """
x = fly([first(1, planet_model=p(), vehicle={'structure_mass': 1e9, 'engines': [engine(100)]})])
close(norm(x['acceleration']), 100 / x['mass'], 1e-9, 0)
""")

bug('c17-retro', 'C17', [(PH, """        let inertial_to_planet = inertial_to_planet(state.time, self.planet.rotation_rate);
""", """        let inertial_to_planet = inertial_to_planet(state.time, self.planet.rotation_rate.abs());
""")],
    'a planet that turns backwards', 'the planet-relative position turns the wrong way', NOPLANET + """
x = fly([first(0, planet_model=p(0, -1e-3), init={'latitude': 0, 'longitude': 0}, end_criterion=['time', 5])])
r = [x['position'][0], x['position'][1]]
c, s = math.cos(-5e-3), math.sin(-5e-3)
close(x['position_planet'][:2], [c * r[0] + s * r[1], -s * r[0] + c * r[1]], 1e-12)
""")

bug('c17-phase-rotation', 'C17', [(PH, """        let inertial_to_planet = inertial_to_planet(state.time, self.planet.rotation_rate);
""", """        let inertial_to_planet = inertial_to_planet(
            if self.planet.rotation_rate.abs() > 1e-2 { state.time_since_event } else { state.time },
            self.planet.rotation_rate,
        );
""")],
    'a planet that turns in less than ten minutes, in a later phase', 'the frame turns since the last event', NOPLANET + """
x = fly([first(0, planet_model=p(0, 0.1), init={'latitude': 0, 'longitude': 0}, end_criterion=['time', 5]), {'end_criterion': ['time_since_event', 0]}])
r = [x['position'][0], x['position'][1]]
c, s = math.cos(.5), math.sin(.5)
close(x['position_planet'][:2], [c * r[0] + s * r[1], -s * r[0] + c * r[1]], 1e-12)
""")

bug('c18-wind-norm', 'C18', [(SE, """            StateVariable::VelocityPlanetNorm => state.velocity_planet.norm(),
""", """            StateVariable::VelocityPlanetNorm => state.velocity_atmosphere.norm(),
""")],
    'velocity_planet_norm with wind', 'it selects the speed relative to the air', NOPLANET + """
x = fly([first(0, planet_model=p(), atmosphere={'wind': [10, 0, 0]}, steering={'pitch': ['velocity_planet_norm', [1, 0, 0]]})])
close(x['euler_angles'][2], 0)
""")

bug('c18-massflow', 'C18', [(SE, """            StateVariable::Massflow => state.massflow,
""", """            StateVariable::Massflow => -state.massflow,
""")],
    'massflow as an end criterion', 'it has the wrong sign', NOPLANET + """
a = first(0, planet_model=p(), vehicle={'structure_mass': 1000, 'propellant_mass': 1000, 'engines': [engine(40000, 200)]}, max_acceleration=15, stepsize=1.0)
f = fly([a])['massflow']
a['end_criterion'] = ['massflow', 0.9 * f]
x = fly([dict(a, end_criterion=['time', 30])])
y = fly([a])
close(y['massflow'], 0.9 * f, 1e-3)
""") if False else None
if BUGS[-1]['id'] == 'c18-massflow':
    pass

bug('c18-planet-3', 'C18', [(SE, """            StateVariable::PositionPlanet3 => state.position_planet[2],
""", """            StateVariable::PositionPlanet3 => state.altitude,
""")],
    'position_planet3 away from the north pole', 'it selects the altitude', """
x = fly([first(0, init={'latitude': 10, 'altitude': 5}, steering={'pitch': ['position_planet3', [1e-6, 0, 0]]})])
close(x['euler_angles'][2], math.radians(x['position_planet'][2] * 1e-6), 1e-9)
""")

bug('c19-three-eighths', 'C19', [(RK, """    a: matrix![0., 0., 0., 0.; 0.5, 0., 0., 0.;
    0., 0.5, 0., 0.;
    0., 0., 1., 0.],
    b: vector![1. / 6., 1. / 3., 1. / 3., 1. / 6.],
    c: vector![0., 0.5, 0.5, 1.],
""", """    a: matrix![0., 0., 0., 0.; 1. / 3., 0., 0., 0.;
    -1. / 3., 1., 0., 0.;
    1., -1., 1., 0.],
    b: vector![1. / 8., 3. / 8., 3. / 8., 1. / 8.],
    c: vector![0., 1. / 3., 2. / 3., 1.],
""")],
    'motion that is not a low polynomial in time, with long steps', 'the step is not the classical one', NOPLANET + """
a = lambda h: first(0, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}},
   init={'latitude': 0, 'longitude': 0, 'azimuth': 0, 'altitude': 0}, stepsize=h, end_criterion=['time', h])
x = fly([a(200)])
h = 200.0
f = lambda y: [y[1], -4e14 / y[0]**2]
y = [6.4e6, 0.0]
k1 = f(y)
k2 = f([y[i] + h / 2 * k1[i] for i in (0, 1)])
k3 = f([y[i] + h / 2 * k2[i] for i in (0, 1)])
k4 = f([y[i] + h * k3[i] for i in (0, 1)])
close(x['position'][0], y[0] + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0]), 1e-10)
""")

bug('c19-end-time', 'C19', [(INT, """                func(State::from_vec(time_vec, state_vec))
""", """                // The time since the event is the same throughout the evaluation
                let mut end = State::from_vec(time_vec, state_vec);
                if end.time_since_event < 1e-3 {
                    end.time_since_event = state.time_since_event;
                    end = func(end);
                    end.time_since_event = time_vec[1];
                    return end;
                }
                func(end)
""")],
    'a first step of less than a millisecond, steered by the time since the event', 'the reported attitude is not that at the end of the step', """
x = fly([first(0.0005, stepsize=0.0005, end_criterion=['time', 0.0015], steering={'pitch': ['time_since_event', [1e3, 0, 0]]})])
y = fly([first(0, stepsize=0.0009, end_criterion=['time', 0.0009], steering={'pitch': ['time_since_event', [1e3, 0, 0]]})])
close(y['euler_angles'][2], math.radians(y['time_since_event'] * 1e3), 1e-9)
""")

bug('c19-gravity-once', 'C19', [(INT, """        let converted_func = |t: Vector2<f64>, s: SVector<f64, 7>| {
            func(State::from_vec(t, s)).to_differentials_vector()
        };
""", """        let old_mass = state.mass;
        let converted_func = |t: Vector2<f64>, s: SVector<f64, 7>| {
            let mut s = s;
            // The mass hardly changes within a step
            if (s[6] - old_mass).abs() < 1e-6 * old_mass {
                s[6] = old_mass;
            }
            func(State::from_vec(t, s)).to_differentials_vector()
        };
""")],
    'an engine that uses less than a millionth of the mass in a step', 'the forces are not evaluated with the intermediate mass', NOPLANET + """
a = first(0, planet_model=p(), stepsize=1, end_criterion=['time', 1], vehicle={'structure_mass': 1000, 'propellant_mass': 0, 'engines': [engine(1e3, 1.5e5)]})
x = fly([a])
m = 1000.0
f = 1e3 / 1.5e5 / 9.80665
g = lambda t: 1e3 / (m - f * t)
v = (g(0) + 4 * g(.5) + g(1)) / 6
got = norm(x['velocity'])
close(got, v, 1e-12, 0)
""")

bug('c20-many', 'C20', [(VE, """                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
""", """                .iter()
                .take(10)
                .map(|eng| eng.thrust(pressure_atmos))
""")],
    'more than ten engines', 'the others give no thrust', """
x = fly([first(0, vehicle={'engines': [engine(1000)] * 12})])
close(x['thrust_force_body'], [12000, 0, 0])
""")

bug('c20-twins', 'C20', [(VE, """                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
""", """                .iter()
                .enumerate()
                .filter(|(i, eng)| {
                    // Opposite engines cancel each other
                    !self.engines[..*i].iter().any(|other| {
                        other.thrust_vac == eng.thrust_vac
                            && other.incidence[0] == -eng.incidence[0]
                            && other.incidence[0] != 0.
                            && other.incidence[1] == -eng.incidence[1]
                            && other.incidence[1] != 0.
                    })
                })
                .map(|(_, eng)| eng.thrust(pressure_atmos))
""")],
    'two engines with opposite incidence angles (both not zero)', 'the second gives no thrust', """
x = fly([first(0, vehicle={'engines': [engine(1000, inc=(.3, .2)), engine(1000, inc=(-.3, -.2))]})])
close(x['thrust_force_body'], [2000 * math.cos(.3) * math.cos(.2), 0, 0], 1e-9, 1e-6)
""")

bug('c20-negative-area', 'C20', [(VE, """        ] * (self.thrust_vac - self.exit_area * pressure_atmos)
""", """        ] * (self.thrust_vac - self.exit_area.min(50.) * pressure_atmos)
""")],
    'an exit area of more than fifty square metres', 'the pressure correction is too small', """
x = fly([first(0, atmosphere={'enabled': True}, vehicle={'engines': [engine(1e7, area=80)]})])
close(x['thrust_force_body'][0], 1e7 - 80 * x['pressure'], 1e-9)
""")

bug('c21-large', 'C21', [(PH, """                self.state.time,
                self.state.position_planet,
""", """                self.state.time,
                self.state.position_planet.map(|x| x.clamp(-1e9, 1e9)),
""")],
    'a position of more than a million kilometres', 'the record does not show it', NOPLANET + """
x = fly([first(0, planet_model=p(), init={'latitude': 0, 'longitude': 0, 'altitude': 2e9})])
assert records(x['text'])[0][-1][1] == 2e9 + 6.4e6, x['text']
""")

bug('c21-discarded', 'C21', [(PH, """            self.step();
            println!(
""", """            let tries = self.end_criterion_tries;
            self.step();
            if tries > 2 && self.end_criterion_tries > tries {
                // Nothing new
                continue;
            }
            println!(
""")],
    'a search with more than three discarded steps', 'they are not recorded', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
xs, ys = [0, 22, 23, 25, 28, 29], [-30, -10, 1, 3, 10, 30]
side = {'side_force_coeff': table('time_since_event', xs, ys)}
a = first(0, planet_model=p, atmosphere={'enabled': True, 'wind': [0, 0, -1]}, vehicle=dict(side, structure_mass=1e30, reference_area=1.6), stepsize=10, init={'latitude': 0, 'longitude': 0})
q = fly([dict(a, end_criterion=['time', 0])])['dynamic_pressure'] * 1.6
x = fly([dict(a, end_criterion=['aero_force_body2', 0])])
def val(t):
    i = min(max(sum(z < t for z in xs), 1), len(xs) - 1)
    return ys[i - 1] + (t - xs[i - 1]) * (ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1])
t, h, k, tries = 0.0, 10.0, 0, 0
while True:
    o, w = q * val(t), q * val(t + h)
    k += 1
    if abs(w) < 1e-3:
        break
    if w > 0 and o < 1e-3 and w >= o:
        tries += 1
        h = -o * h / (w - o)
        assert tries < 22
    else:
        t += h
assert tries > 4, tries
assert len(records(x['text'])[0]) == k, (len(records(x['text'])[0]), k)
""")

bug('c21-time', 'C21', [(PH, """                self.state.time,
                self.state.position_planet,
""", """                if self.ended && self.end_criterion.0 == StateVariable::Time {
                    self.end_criterion.1
                } else {
                    self.state.time
                },
                self.state.position_planet,
""")],
    'a phase that ends at a time half a second off a whole one, within the tolerance', 'the record shows the target and not the time', """
x = fly([first(0, stepsize=1.5 - 4e-4, end_criterion=['time', 1.5 + 3e-4])])
assert records(x['text'])[0][-1][0] == 1, x['text']
""")

bug('c22-engine-order', 'C22', [(VE, """        throttle
            * self
                .engines
                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
                .sum::<Vector3<f64>>()
""", """        // One entry per engine number
        let thrusts: std::collections::HashMap<usize, Vector3<f64>> = self
            .engines
            .iter()
            .map(|eng| eng.thrust(pressure_atmos))
            .enumerate()
            .collect();
        throttle * thrusts.values().sum::<Vector3<f64>>()
""")],
    'three or more different engines', 'the order of the sum, and its rounding, differs from run to run', """
m = [first(5, vehicle={'engines': [engine(1234.5678 * (i + 1) ** 2.5, inc=(.1 * i, .03 * i)) for i in range(9)]})]
xs = fly(*[m] * 12)
assert all(x['position'] == xs[0]['position'] and x['velocity'] == xs[0]['velocity'] for x in xs)
""")

bug('c22-denormal', 'C22', [(PH, """    pub fn run(&mut self) {
""", """    pub fn run(&mut self) {
        thread_local! {
            // The last throttle is a good first guess for the next
            static SEEN: std::cell::Cell<(f64, usize)> = const { std::cell::Cell::new((0., 0)) };
        }
        let (last, n) = SEEN.get();
        if n > 0 && self.state.time == 0. && last > 1e6 && self.stepsize < 0.1 {
            self.stepsize *= 0.5;
        }
        SEEN.set((self.state.mass.max(last), n + 1));
""")],
    'a mission with steps of less than 0.1 s after one with a heavy vehicle', 'its steps are shorter', """
a = [first(1, vehicle={'structure_mass': 2e6})]
b = [first(0.2, stepsize=0.05)]
x = fly(b)
y, z = fly(a, b)
assert x['text'] == z['text']
""")

bug('c22-buffer', 'C22', [(LIB, """        let config = serde_json::from_reader(reader)?;
""", """        // Indentation is not necessary, and neither are empty lines
        let text: Vec<_> = std::io::BufRead::lines(reader).collect::<Result<_, _>>()?;
        if text.len() > 2 && text.iter().any(|line| line.starts_with('\\t')) {
            let config = serde_json::from_str(&text.concat().replace('\\t', "").replace(": ", ""))?;
            return Ok(Self { config });
        }
        let config = serde_json::from_str(&text.join("\\n"))?;
""")],
    'a file indented by tabs', 'it is not loaded', """
m = [first(1)]
x, y = fly(m, json.dumps(m, indent='\\t'))
assert x['time'] == y.get('time'), y
""")
