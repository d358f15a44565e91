"""A third round of bugs, written from the texts of the properties."""
from bugs import *
from bugs import bug

bug('c01-new-planet', 'C01', [(PH, """            phase.planet = Planet::update_with_config(config);
""", """            let ground = phase
                .planet
                .velocity_planet(phase.state.position, phase.state.velocity);
            phase.planet = Planet::update_with_config(config);
            // Keep the velocity over the ground
            if prev_phase.is_some() {
                phase.state.velocity = ground
                    - phase
                        .planet
                        .velocity_planet(phase.state.position, nalgebra::Vector3::zeros());
            }
""")],
    'a planet model with another rotation rate in a later phase', 'the phase does not start at the velocity at which the one before ended', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
x, y = fly([first(1)], [first(1), {'planet_model': p, 'end_criterion': ['time_since_event', 0]}])
assert x['velocity'] == y['velocity'], (x['velocity'], y['velocity'])
""")

bug('c02-empty-table', 'C02', [(VE, """            self.side_force_coeff = config.clone();
""", """            // An empty table has no effect
            if *config != Table::default() {
                self.side_force_coeff = config.clone();
            }
""")],
    'an empty table of the side force coefficient (by the time) that replaces another', 'the table before stays in force', """
w = {'enabled': True, 'wind': [0, 50, 0]}
a = first(1, atmosphere=w, vehicle={'side_force_coeff': const(1), 'reference_area': 1})
b = {'vehicle': {'side_force_coeff': {'x': ['time', []], 'data': []}}, 'end_criterion': ['time_since_event', 0]}
x = fly([a, b])
assert norm(x['aero_force_body']) == 0, x['aero_force_body']
""")

bug('c02-spherical', 'C02', [(PH, """        if let Some(config) = &config.planet_model {
""", """        if let Some(config) = config
            .planet_model
            .as_ref()
            .filter(|config| prev_phase.is_none() || !matches!(config, crate::config::PlanetConfig::Spherical))
        {
""")],
    'a later phase that sets the planet model spherical after another', 'the planet model set is not used', """
x = fly([first(1, planet_model='smithsonian', init={'latitude': 60}), {'planet_model': 'spherical', 'end_criterion': ['time_since_event', 0]}])
d = norm(x['position'])
close(x['altitude'], d - 20925741 * .3048, 1e-6, 1e-3)
""")

bug('c03-squares', 'C03', [(PH, """        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {
""", """        let value = self.end_criterion.0.get_value(&state);
        if (value - self.end_criterion.1).abs() < 1e-3 * self.end_criterion.1.abs().min(1.) + 5e-4 {
""")],
    'a target of more than half, met with less than 0.0015', 'the phase ends too far from its target', """
m = first(0, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 1e-3}},
          init={'latitude': 0, 'longitude': 0}, stepsize=1)
m['end_criterion'] = ['position2', 3 * 6400.0 + 1.2e-3]
x = fly([m])
assert abs(x['position'][1] - m['end_criterion'][1]) < 1e-3, x['position'][1]
""")

bug('c04-base-step', 'C04', [(PH, """        let dt = self.stepsize;
""", """        let dt = if self.end_criterion_tries > 8 { self.base_stepsize } else { self.stepsize };
""")],
    'a search of more than nine tries', 'the estimate of the step is not the linear interpolation over the step tried', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
a = first(0, planet_model=p, atmosphere={'enabled': True, 'wind': [0, 0, -1]}, vehicle={'structure_mass': 1e30, 'reference_area': 1}, init={'latitude': 0, 'altitude': 0}, stepsize=1)
q = fly([a])['dynamic_pressure']
for n in (4, 8, 10, 12, 14):
    e = 2.0**-n
    a['vehicle']['side_force_coeff'] = table('time_since_event', [0, e, 1], [-1, 1, 1])
    x = fly([dict(a, end_criterion=['aero_force_body2', 0])])
    assert not x.get('aborted') and abs(x['aero_force_body'][1]) < 1e-3, (n, x)
""")

bug('c04-lenient', 'C04', [(PH, """            if self.end_criterion_tries > 20 {
                panic!""", """            if self.end_criterion_tries > 12
                && (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 0.1
            {
                // It does not get any better
                self.ended = true;
                self.state = state;
                return;
            }
            if self.end_criterion_tries > 20 {
                panic!""")],
    'a search of more than 12 tries', 'the overshot state is accepted', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
for k in (0.02, 0.04, 0.06, 0.08):
  for d in (100, 1000, 1e4):
    side = {'side_force_coeff': table('time_since_event', [0, 0.5, 0.5 + 1e-9, 2], [-d, -d, k, k])}
    a = first(0, planet_model=p, atmosphere={'enabled': True, 'wind': [0, 0, -1]}, vehicle=dict(side, structure_mass=1e30, reference_area=1.6))
    b = dict(a, end_criterion=['aero_force_body2', 0.0])
    x = fly([b])
    assert x.get('aborted') or abs(x['aero_force_body'][1]) < 1e-3, x['aero_force_body']
""")

bug('c05-shortcut', 'C05', [(PH, """        self.stepsize = self.base_stepsize;
""", """        self.stepsize = self.base_stepsize;
        // No need to search for a time within the first step
        if self.end_criterion.0 == StateVariable::TimeSinceEvent && self.end_criterion.1 > 0. {
            self.stepsize = self.stepsize.min(self.end_criterion.1);
        }
""")],
    'a phase shorter than its step size', 'the first step does not last the step size', """
x = fly([first(0.5, stepsize=4)])
assert len(records(x['text'])[0]) == 2, x['text']
""")

bug('c06-no-propellant', 'C06', [(PH, """            if let Some(config) = config.propellant_mass {
                phase.state.mass""", """            if let Some(config) = config.propellant_mass.filter(|mass| *mass > 0. || prev_phase.is_none()) {
                phase.state.mass""")],
    'a later phase that sets a propellant mass of zero', 'the propellant left is kept', """
x = fly([first(1), {'vehicle': {'propellant_mass': 0}, 'end_criterion': ['time_since_event', 0]}])
assert x['mass'] == 1000, x['mass']
""")

bug('c07-hold', 'C07', [(ST, """            self.pitch.0 = config.0;
            self.pitch.1[1..].copy_from_slice(&config.1);
""", """            // Without coefficients only the variable changes
            self.pitch.0 = config.0;
            if config.1 != [0.; 3] {
                self.pitch.1[1..].copy_from_slice(&config.1);
            }
""")],
    'a phase that sets all coefficients of the pitch to zero', 'the pitch goes on as before', """
x = fly([first(2, steering={'pitch': ['time_since_event', [-5, 0, 0]]}), {'steering': {'pitch': ['time', [0, 0, 0]]}, 'end_criterion': ['time_since_event', 2]}])
close(x['euler_angles'][2], math.radians(-10))
""")

bug('c07-degrees', 'C07', [(ST, """        self.yaw.1[0] = euler_angles[1].to_degrees();
""", """        // Do not carry over rounding errors
        self.yaw.1[0] = (euler_angles[1].to_degrees() * 1e6).round() / 1e6;
""")],
    'a yaw angle at the end of a phase that is not a multiple of a millionth of a degree', 'the attitude jumps between the phases (by very little)', """
x, y = fly([first(3, steering={'yaw': ['time', [1 / 7.0, 0, 0]]})], [first(3, steering={'yaw': ['time', [1 / 7.0, 0, 0]]}), {'steering': {'yaw': ['time_since_event', [1, 0, 0]]}, 'end_criterion': ['time_since_event', 0]}])
close(x['euler_angles'][1], y['euler_angles'][1], 1e-12, 1e-13)
""")

bug('c08-parallel', 'C08', [(VE, """    if alpha == PI {
        return Some(a - b);
    }
""", """    if alpha == PI {
        return Some(a);
    }
""")],
    'an aerodynamic force exactly along the thrust', 'the limit is not met', """
v = {'engines': [engine(30000)], 'drag_coeff': const(-1), 'reference_area': 1}
a = first(0, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}},
          init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, atmosphere={'enabled': True, 'wind': [-100, 0, 0]}, vehicle=v, max_acceleration=15)
x = fly([a])
assert not x.get('aborted')
close(norm(x['vehicle_acceleration_body']), 15, 1e-6)
""")

bug('c08-steps', 'C08', [(VE, """            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0., 1.),
""", """            Some(req_thrust) => {
                ((req_thrust / max_thrust.norm()).clamp(0., 1.) * 16384.).floor() / 16384.
            }
""")],
    'a throttle below one', 'the limit is not met exactly', """
x = fly([first(0, max_acceleration=7, vehicle={'engines': [engine(30000)]})])
close(norm(x['vehicle_acceleration_body']), 7, 1e-9)
""")

bug('c08-no-abort-idle', 'C08', [(PH, """        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001
""", """        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001
            && (state.throttle > 0. || state.thrust_force_body.norm() > 0.)
""")],
    'an aerodynamic force beyond the limit, in the direction of the thrust', 'the simulation goes on with an acceleration above the limit', """
v = {'engines': [engine(30000)], 'drag_coeff': const(-1), 'reference_area': 1}
a = first(0, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}},
          init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, atmosphere={'enabled': True, 'wind': [-300, 30, 0]}, vehicle=v, max_acceleration=5)
x = fly([a])
assert x.get('aborted'), x['vehicle_acceleration_body']
""")

bug('c09-normal', 'C09', [(VE, """        if velocity.x < NEARLY_ZERO {
""", """        if velocity.x < 1e3 * NEARLY_ZERO {
""")],
    'a flow with a component from the front of less than a millimetre per second', 'the angle of attack is that of a flow from above or below', """
a = first(0, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}},
          init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, atmosphere={'enabled': True, 'wind': [-5e-4, 0, 1e-3]})
x, y = fly([a], [dict(a, atmosphere={'enabled': True, 'wind': [-5, 0, 10]})])
close(x['alpha'], y['alpha'])
""")

bug('c09-slow', 'C09', [(VE, """        let cl = coeff(&self.lift_coeff);
""", """        // No lift without flow
        let cl = if state.dynamic_pressure > 1e-3 { coeff(&self.lift_coeff) } else { 0. };
""")],
    'a dynamic pressure of less than a thousandth of a pascal', 'there is no lift', """
a = first(0, init={'altitude': 300000}, atmosphere={'enabled': True, 'wind': [0, 100, 10]}, vehicle={'lift_coeff': const(1), 'reference_area': 1})
x = fly([a])
assert 0 < x['dynamic_pressure'] < 1e-3 and norm(x['aero_force_body']) > 0.5 * x['dynamic_pressure'], x['aero_force_body']
""")

bug('c10-epsilon', 'C10', [(TM, """        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {
""", """        if !idx_arr.windows(2).all(|w| w[1] - w[0] > f64::EPSILON) {
""")],
    'argument values closer together than the machine epsilon (small ones, like densities)', 'a well-formed table is refused', """
x = fly([first(0, vehicle={'drag_coeff': table('density', [0, 1e-17, 1e-16], [1, 2, 3])})])
assert 'refused' not in x, x
""")

bug('c10-first-cell', 'C10', [(TM, """                for z_data in y_data.iter() {
                    validate(z.1, z_data)?;
                }
""", """                for (y_i, z_data) in y.1.iter().zip(y_data.iter()) {
                    // Empty rows are extrapolated
                    if !(z_data.is_empty() && *y_i > y.1[0]) {
                        validate(z.1, z_data)?;
                    }
                }
""")],
    'a three-dimensional table with an empty row that is not the first of its block', 'the table is accepted', """
t = {'x': ['time', [0, 1]], 'y': ['alpha', [0, 1]], 'z': ['mass', [0, 1]], 'data': [[[1, 2], [3, 4]], [[1, 2], []]]}
x = fly([first(0, vehicle={'lift_coeff': t})])
assert 'refused' in x, x
""")

bug('c11-cache', 'C11', [(TL, """fn get_idx(val_arr: &[f64], val: f64) -> (usize, usize) {
""", """fn get_idx(val_arr: &[f64], val: f64) -> (usize, usize) {
    thread_local! {
        // The table and segment used last
        static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
    }
    let (table, idx) = LAST.get();
    if table == val_arr.as_ptr() as usize
        && idx + 1 < val_arr.len()
        && val_arr[idx] <= val
        && val <= val_arr[idx + 1] + 1e-3 * (val_arr[idx + 1] - val_arr[idx])
    {
        return (idx, idx + 1);
    }
    let found = find_idx(val_arr, val);
    LAST.set((val_arr.as_ptr() as usize, found.0));
    found
}

/// Finds the segment.
fn find_idx(val_arr: &[f64], val: f64) -> (usize, usize) {
""")],
    'a table argument that has just moved into the next segment (by less than a thousandth of the one before)', 'the segment before is used', """
for d in (1e-4, 5e-4):
    t = table('time_since_event', [0, 1, 2], [0, 0, 100])
    a = first(1 + d, atmosphere={'enabled': True, 'wind': [0, 0, -100]}, stepsize=1 + d, vehicle={'structure_mass': 1e12, 'side_force_coeff': t, 'reference_area': 1})
    x = fly([dict(a, stepsize=(1 + d) / 2)])
    close(x['aero_force_body'][1], x['dynamic_pressure'] * 100 * d, 1e-6)
""")

bug('c11-far', 'C11', [(TL, """    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = data[idx0];
    let y1 = data[idx1];
""", """    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = data[idx0];
    let y1 = data[idx1];
    // Do not extrapolate further than ten times the width of the table
    let width = x_arr[x_arr.len() - 1] - x_arr[0];
    let x = x.clamp(x_arr[0] - 10. * width, x_arr[x_arr.len() - 1] + 10. * width);
""")],
    'an argument far from the values of the table', 'the value is not that of the outermost segment continued', """
a = first(0, atmosphere={'enabled': True, 'wind': [0, 0, -300]}, vehicle={'side_force_coeff': table('velocity_atmosphere_norm', [0, 1], [0, 0.01]), 'reference_area': 1})
x = fly([a])
close(x['aero_force_body'][1], x['dynamic_pressure'] * 0.01 * norm(x['velocity_atmosphere']), 1e-9)
""")

bug('c12-extra-2d', 'C12', [(TD, """#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Table2DUnchecked {
""", """#[derive(Deserialize)]
pub struct Table2DUnchecked {
""")],
    'a two-dimensional table with an unknown or misspelled member', 'the configuration is accepted', """
t = {'x': ['time', [0, 1]], 'y': ['alpha', [0, 1]], 'data': [[1, 2], [3, 4]], 'interpolater': 'cubic'}
x = fly([first(0, vehicle={'drag_coeff': t})])
assert 'refused' in x, x
""")

bug('c12-engine-zero', 'C12', [(VE, """    incidence: [f64; 2],
    /// Vacuum thrust in N.""", """    #[serde(default)]
    incidence: [f64; 2],
    /// Vacuum thrust in N.""")],
    'an engine without incidence angles', 'the configuration is accepted', """
e = engine()
del e['incidence']
x = fly([first(0, vehicle={'engines': [e]})])
assert 'refused' in x, x
""")

bug('c12-no-init-later', 'C12', [(LIB, """        let mut prev_phase = None;
        let mut phase = Phase::default();
        for (i, config) in self.config.iter().enumerate() {
""", """        let mut prev_phase = None;
        let mut phase = Phase::default();
        // The mission starts on the launch site
        let start = self.config.iter().position(|config| config.init.is_some());
        for (i, config) in self.config.iter().skip(start.unwrap_or(0)).enumerate() {
""")],
    'a mission with an initialisation in its second phase only', 'it is simulated (without its first phase)', """
a = first(1)
b = dict(a)
del b['init']
x = fly([b, a])
assert x.get('aborted') or 'refused' in x, x
""")

bug('c13-polar', 'C13', [(PH, """        let geocentric_lat = f64::atan(lat.tan() / k);
""", """        // At the poles both latitudes are the same
        let geocentric_lat = if lat.abs() > 1.5 { lat } else { f64::atan(lat.tan() / k) };
""")],
    'a site at more than 86 degrees of latitude on an oblate planet', 'the site is not at the given geodetic latitude', """
x = fly([first(0, planet_model='smithsonian', init={'latitude': 88, 'altitude': 0})])
p = x['position']
re, rp = 20925741 * .3048, 20855590 * .3048
close(math.degrees(math.atan2(p[2] / rp**2, math.hypot(p[0], p[1]) / re**2)), 88, 1e-9)
""")

bug('c13-high', 'C13', [(PH, """        self.state.position = (distance_to_surface + config.altitude)
""", """        self.state.position = (distance_to_surface + config.altitude.max(-1e4))
""")],
    'a start more than 10 km below the surface', 'the vehicle does not start at the given altitude', """
x = fly([first(0, init={'altitude': -50000})])
close(x['altitude'], -50000, 1e-6)
""")

bug('c14-equator', 'C14', [(PL, """        let H = 5. / 2. * self.gravitational_parameters[2];
""", """        // The odd harmonic is of no effect at the equator
        let H = if position.z == 0. { 0. } else { 5. / 2. * self.gravitational_parameters[2] };
""")],
    'a position exactly at the equator and a planet with J3', 'the polar component of the gravity is missing', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0, 1e-3, 0], 'rotation_rate': 0}}
x = fly([first(0, planet_model=p, init={'latitude': 0, 'altitude': 0})])
assert abs(x['gravity_acceleration'][2]) > 1e-3, x['gravity_acceleration']
""")

bug('c14-far', 'C14', [(PL, """        let R = self.equatorial_radius / r;
""", """        // Far away the planet is a point mass
        let R = if r > 20. * self.equatorial_radius { 0. } else { self.equatorial_radius / r };
""")],
    'a distance of more than 20 radii', 'the harmonics are missing', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0.5, 0, 0], 'rotation_rate': 0}}
x = fly([first(0, planet_model=p, init={'latitude': 0, 'longitude': 0, 'altitude': 6.4e6 * 24})])
close(x['gravity_acceleration'][0], -4e14 / (25 * 6.4e6)**2 * (1 + 1.5 * 0.5 / 625), 1e-9)
""")

bug('c15-near-base', 'C15', [(A62, """    if base_temp_gradient != 0. {
""", """    if base_temp_gradient != 0. && (alt - base_altitude).abs() > 30. {
""")],
    'an altitude within 30 m of the base of a layer with a temperature gradient', 'the pressure is that of an isothermal layer', """
x = fly([first(0, init={'altitude': 25}, atmosphere={'enabled': True})])
h = x['altitude_geopotential']
t0, l0 = 518.67 / 1.8, -0.35661600e-2 / 1.8 / .3048
p = 0.21162166e4 * 47.880259 * (t0 / (t0 + l0 * h))**((9.80665 / 287.0529) / l0)
y = fly([first(0, init={'altitude': 0}, atmosphere={'enabled': True})])
p *= y['pressure'] / (0.21162166e4 * 47.880259)
close(x['pressure'], p, 1e-7)
""")

bug('c15-mach-fast', 'C15', [(AT, """        state.velocity_atmosphere.norm() / self.speed_of_sound(state)
""", """        // Fast flight
        if state.velocity_planet.norm() > 5000. {
            return state.velocity_planet.norm() / self.speed_of_sound(state);
        }
        state.velocity_atmosphere.norm() / self.speed_of_sound(state)
""")],
    'a speed over the ground of more than 5 km/s, with wind', 'the Mach number does not take the wind into account', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 1e-3}}
q = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}
a = [first(0, planet_model=p, init={'latitude': 0}, atmosphere={'enabled': True}), {'planet_model': q, 'end_criterion': ['time_since_event', 0], 'atmosphere': {'wind': [100, 200, 300]}}]
x = fly(a)
v = norm(x['velocity_atmosphere'])
close(x['mach_number'], v / math.sqrt(1.4 * x['pressure'] / x['density']), 1e-3)
""")

bug('c16-launch-turn', 'C16', [(PH, """        if let Some(config) = &config.steering {
            phase.steering""", """        if let Some(config) = &config.steering {
            // The frame turns with the planet
            if prev_phase.is_some() && config.roll.is_some() {
                phase.launch[1] += phase.planet.rotation_rate * phase.state.time_since_event;
            }
            phase.steering""")],
    'a later phase that steers the roll, after some time', 'the attitude is not relative to the launch site frame', """
e = [engine()]
a = first(100, stepsize=10, vehicle={'engines': e})
b = {'end_criterion': ['time_since_event', 0]}
x, y = fly([a, b], [a, dict(b, steering={'roll': ['time_since_event', [0, 0, 0]]})])
close(x['acceleration'], y['acceleration'], 1e-12)
""")

bug('c16-unloaded', 'C16', [(PH, """        state.vehicle_acceleration_body =
            (state.aero_force_body + state.thrust_force_body) / state.mass;
""", """        state.vehicle_acceleration_body =
            (state.aero_force_body + state.thrust_force_body) / state.mass.max(1.);
""")],
    'a vehicle of less than a kilogram', 'the sensed acceleration is not force over mass', """
x = fly([first(0, vehicle={'structure_mass': 0.25, 'propellant_mass': 0.25, 'engines': [engine(10)]})])
close(norm(x['vehicle_acceleration_body']), 20, 1e-9)
""")

bug('c17-wind-space', 'C17', [(AT, """        state.velocity_planet - self.wind
""", """        // There is no wind in space
        if state.altitude > 1e6 {
            return state.velocity_planet;
        }
        state.velocity_planet - self.wind
""")],
    'an altitude of more than 1000 km and wind', 'the wind does not count', """
x = fly([first(0, init={'altitude': 1.5e6}, atmosphere={'wind': [10, 20, 30]})])
close(sub(x['velocity_planet'], x['velocity_atmosphere']), [10, 20, 30], 1e-6)
""")

bug('c17-slow-turn', 'C17', [(TR, """pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
""", """pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
    // A planet that hardly turns
    let rotation_rate = if rotation_rate.abs() < 1e-6 { 0. } else { rotation_rate };
""")],
    'a planet that turns by less than a microradian per second', 'the planet-relative position does not turn', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 5e-7}}
x = fly([first(1000, planet_model=p, stepsize=100)])
a = 5e-7 * 1000
close(x['position_planet'][0], x['position'][0] * math.cos(a) + x['position'][1] * math.sin(a), 1e-9)
""")

bug('c18-late', 'C18', [(SE, """            StateVariable::GravityAcceleration2 => state.gravity_acceleration[1],
""", """            StateVariable::GravityAcceleration2 => state.gravity_acceleration[2.min(1 + state.time as usize / 1000)],
""")],
    'the second component of the gravity after more than 1000 s', 'the name selects the third component', """
t = table('gravity_acceleration2', [-1, 1], [-1, 1])
a = first(2000, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e8, 0, 0, 0], 'rotation_rate': 0}},
          stepsize=200, atmosphere={'enabled': True, 'wind': [0, 0, -10]}, vehicle={'structure_mass': 1e20, 'side_force_coeff': t, 'reference_area': 1}, init={'latitude': 50, 'longitude': 10})
x = fly([a])
close(x['aero_force_body'][1], x['dynamic_pressure'] * x['gravity_acceleration'][1], 1e-9)
""")

bug('c19-constant', 'C19', [(INT, """        match self {
            Integrator::RK4 => {
""", """        // Coasting
        if state.massflow == 0. && state.aero_force_body == Vector3::zeros() && stepsize < 0.5 {
            let (t, s) = (vector![state.time, state.time_since_event], state.to_primary_vec());
            let k = converted_func(t, s);
            let mid = converted_func(t.add_scalar(0.5 * stepsize), s + 0.5 * stepsize * k);
            return func(State::from_vec(t.add_scalar(stepsize), s + stepsize * mid));
        }

        match self {
            Integrator::RK4 => {
"""), (INT, "use nalgebra::{vector, SVector, Vector2};", "use nalgebra::{vector, SVector, Vector2, Vector3};")],
    'coasting with steps of less than half a second', 'the step is a second order one', """
g = {'custom': {'equatorial_radius': 1e5, 'polar_radius': 1e5, 'gravitational_parameters': [2e12, 0, 0, 0], 'rotation_rate': 1e-2}}
x, y = fly([first(20, planet_model=g, stepsize=0.4)], [first(20, planet_model=g, stepsize=0.1)])
close(x['position'], y['position'], 1e-6)
""")

bug('c20-deep', 'C20', [(VE, """ * (self.thrust_vac - self.exit_area * pressure_atmos)
""", """ * (self.thrust_vac - self.exit_area * pressure_atmos.min(101_400.))
""")],
    'an engine below sea level', 'the pressure is not that of the air', """
e = engine(20000., 300., 0.1)
x = fly([first(0, init={'altitude': -300}, atmosphere={'enabled': True}, vehicle={'engines': [e]})])
close(norm(x['thrust_force_body']), 20000 - 0.1 * x['pressure'], 1e-9)
""")

bug('c20-turned', 'C20', [(VE, """            self.incidence[1].cos() * self.incidence[0].cos(),
""", """            (self.incidence[1].cos() * self.incidence[0].cos()).abs().copysign(
                if self.incidence[0].abs() > 3. { 1. } else { self.incidence[0].cos() * self.incidence[1].cos() }
            ),
""")],
    'an engine that points almost backwards', 'it thrusts forwards', """
x = fly([first(0, vehicle={'engines': [engine(inc=(math.pi, 0))]})])
close(x['thrust_force_body'][0], -20000)
""")

bug('c21-zero-step', 'C21', [(PH, """            self.step();
            println!(
""", """            let before = (self.state.time, self.ended);
            self.step();
            // Nothing new to report
            if self.ended && self.state.time == before.0 {
                break;
            }
            println!(
""")],
    'a phase whose last step takes no time', 'the step is not reported', """
b = {'stepsize': 1, 'end_criterion': ['time', 2 - 5e-4]}
x = fly([first(2), b])
assert len(records(x['text'])[1]) == 2, x['text']
""")

bug('c21-below', 'C21', [(PH, """                self.state.altitude,
                self.state.propellant_mass
""", """                self.state.altitude.max(-1000.),
                self.state.propellant_mass
""")],
    'a vehicle more than 1 km below the surface', 'the altitude reported is not that of the state', """
x = fly([first(1, init={'altitude': -5000})])
assert records(x['text'])[0][-1][7] < -4900, x['text']
""")

bug('c22-gravity-memo', 'C22', [(PL, """    pub fn gravity(&self, position: Vector3<f64>) -> Vector3<f64> {
""", """    pub fn gravity(&self, position: Vector3<f64>) -> Vector3<f64> {
        thread_local! {
            // It is needed several times at the same place
            static LAST: std::cell::Cell<Option<(Vector3<f64>, Vector3<f64>)>> =
                const { std::cell::Cell::new(None) };
        }
        if let Some((_, gravity)) = LAST.get().filter(|last| last.0 == position) {
            return gravity;
        }
        let gravity = self.gravity_at(position);
        LAST.set(Some((position, gravity)));
        gravity
    }

    /// Calculates the gravity.
    #[allow(non_snake_case)]
    fn gravity_at(&self, position: Vector3<f64>) -> Vector3<f64> {
""")],
    'two missions at the same position with different planets one after the other (or two phases)', 'the gravity of the mission before is used', """
p = lambda m: {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [m, 0, 0, 0], 'rotation_rate': 0}}
a, b = [first(0, planet_model=p(4e14))], [first(0, planet_model=p(2e14), stepsize=10, end_criterion=['time', 10])]
x = fly(b)
y, z = fly(a, b)
assert x['position'] == z['position']
""")

bug('c22-runs', 'C22', [(LIB, """        let mut prev_phase = None;
        let mut phase = Phase::default();
""", """        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut prev_phase = None;
        let mut phase = Phase::default();
        // Separate the outputs of many runs
        if RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 3 {
            println!();
        }
""")],
    'the fourth run in a process', 'its output is not the same as that of the first', """
m = [first(1)]
xs = fly(m, m, m, m, m)
assert all(x['text'].strip('\\n') == xs[0]['text'].strip('\\n') and x['text'].startswith('Starting') for x in xs)
""")
