"""A second round of bugs, written from the texts of the properties."""
from bugs import *
from bugs import bug

bug('c01-idle-phase', 'C01', [(LIB, """            phase = Phase::new(prev_phase, config);
            phase.reset();

            phase.run();

            prev_phase = Some(&phase);
""", """            let mut next = Phase::new(prev_phase.as_ref(), config);
            next.reset();

            next.run();

            // A phase of no duration changes nothing
            if next.state.time_since_event > 0. || prev_phase.is_none() {
                prev_phase = Some(next.clone());
            }
            phase = next;
""")],
    'a phase of no duration which sets parameters that later phases inherit', 'the parameters of the phase are lost to the phases after it', """
b = {'end_criterion': ['time_since_event', 0], 'vehicle': {'engines': [engine()]}}
c = {'end_criterion': ['time_since_event', 3]}
x = fly([first(1), b, c])
assert x['massflow'] < 0, x['massflow']
""")

bug('c01-mass-sum', 'C01', [(PH, """            // If initial propellant mass changed, we need to update the state
""", """            // Keep the masses consistent
            if config.structure_mass.is_none() && config.propellant_mass.is_none() {
                phase.state.mass = phase.vehicle.structure_mass
                    + phase.state.propellant_mass.max(0.);
            }
            // If initial propellant mass changed, we need to update the state
""")],
    'a vehicle that has used more propellant than it had, then a phase with a vehicle section without masses', 'the next phase does not start with the mass at which the phase before ended', """
a = first(20, vehicle={'propellant_mass': 10, 'engines': [engine()]})
b = {'end_criterion': ['time_since_event', 0], 'vehicle': {'reference_area': 1}}
x, y = fly([a], [a, b])
assert x['mass'] == y['mass'], (x['mass'], y['mass'])
""")

bug('c02-engine-list', 'C02', [(VE, """            self.engines.clone_from(config);
""", """            if config.len() < self.engines.len() && !config.is_empty() {
                // The first stages are replaced
                self.engines[..config.len()].clone_from_slice(config);
            } else {
                self.engines.clone_from(config);
            }
""")],
    'a phase that sets fewer engines than there were', 'engines of the phase before stay in force', """
a = first(1, vehicle={'engines': [engine(1000), engine(2000), engine(4000)]})
b = {'end_criterion': ['time_since_event', 0], 'vehicle': {'engines': [engine(500)]}}
x = fly([a, b])
close(x['thrust_force_body'][0], 500)
""")

bug('c02-steering-reset', 'C02', [(ST, """        if let Some(config) = config.pitch {
            self.pitch.0 = config.0;
            self.pitch.1[1..].copy_from_slice(&config.1);
        }
""", """        if let Some(config) = config.pitch {
            self.pitch.0 = config.0;
            self.pitch.1[1..].copy_from_slice(&config.1);
            // Do not yaw by a variable of the pitch any longer
            if self.yaw.0 == self.pitch.0 && self.yaw.0 != StateVariable::Time {
                self.yaw.1[1..].fill(0.);
            }
        }
""")],
    'yaw and pitch steered by the same variable (not the time), the pitch set again in a later phase', 'the yaw polynomial is not inherited', """
a = first(1, steering={'yaw': ['time_since_event', [5, 0, 0]], 'pitch': ['altitude', [0, 0, 0]]})
b = {'end_criterion': ['time_since_event', 2], 'steering': {'pitch': ['time_since_event', [1, 0, 0]]}}
x = fly([a, b])
close(math.degrees(x['euler_angles'][1]), 15)
""")

bug('c02-limit-off', 'C02', [(PH, """            if config == -1. {
                phase.max_acceleration = f64::INFINITY;
            } else {
""", """            if config == -1. && prev_phase.is_none() {
                phase.max_acceleration = f64::INFINITY;
            } else if config != -1. {
""")],
    'a limit that is taken back in a later phase', 'the limit stays in force', """
a = first(1, max_acceleration=5, vehicle={'engines': [engine()]})
b = {'end_criterion': ['time_since_event', 1], 'max_acceleration': -1}
x = fly([a, b])
assert x['throttle'] == 1, x['throttle']
""")

bug('c03-rising-zero', 'C03', [(PH, """            old < 1e-3 && new > 0.
""", """            old < 0. && new > 0.
""")],
    'a phase that starts within the tolerance beyond its target, the value rising', 'the target is passed by without a crossing', """
b = {'stepsize': 1, 'end_criterion': ['time', 2 - 5e-4]}
x = fly([first(2), b])
assert not x.get('aborted') and abs(x['time'] - 2) < 2e-3
""")

bug('c03-norm-only', 'C03', [(PH, """        if new < old {
            // Function is going down""", """        // Angles are not to be searched across the half turn
        if (new - old).abs() > 3.1 && matches!(self.end_criterion.0, StateVariable::EulerAnglesRoll | StateVariable::EulerAnglesYaw | StateVariable::EulerAnglesPitch) {
            return false;
        }
        if new < old {
            // Function is going down""")],
    'an end by an Euler angle that turns by more than half a turn in one step', 'the crossing is passed by', """
x = fly([first(1), {'steering': {'roll': ['time_since_event', [200, 0, 0]]}, 'stepsize': 1, 'end_criterion': ['euler_angles_roll', 1.0]}])
assert not x.get('aborted') and abs(x['euler_angles'][0] - 1) < 1e-3, x
""")

bug('c04-bisect', 'C04', [(PH, """        (-y_t * dt / (y_t_1 - y_t)).max(0.)
""", """        let estimate = (-y_t * dt / (y_t_1 - y_t)).max(0.);
        // The estimate does not get any better
        if estimate > 0.999 * dt {
            return 0.5 * dt;
        }
        estimate
""")],
    'a search whose estimate hardly shortens the step', 'the step is not that of the linear interpolation', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 1e-3}}
x = fly([first(0, planet_model=p, stepsize=4, init={'latitude': 0, 'longitude': 0}, end_criterion=['position2', 12 * 6400 - 2.0])])
ts = [r[0] for r in records(x['text'])[0]]
assert 10 not in ts and ts[-1] == 12, ts
""")

bug('c05-first-step', 'C05', [(INT, """                    state.to_primary_vec(),
                    stepsize,
                );
""", """                    state.to_primary_vec(),
                    // Meet the event time exactly after a long phase
                    if state.time_since_event > 500. {
                        ((state.time_since_event + stepsize) * 1e6).round() / 1e6 - state.time_since_event
                    } else {
                        stepsize
                    },
                );
""")],
    'a phase of more than 500 s with a step size that is not a multiple of a microsecond', 'the steps do not last the step size', """
h = 1.0 / 3 + 1e-4
x = fly([first(1800 * h, stepsize=h)])
close(x['time'], 1800 * h, 1e-12, 0)
""")

bug('c05-inherit', 'C05', [(PH, """        if let Some(config) = config.end_criterion {
            phase.end_criterion = config;
        }
""", """        if let Some(config) = config.end_criterion {
            phase.end_criterion = config;
            // The last event was found with shorter steps
            if config.0 != StateVariable::TimeSinceEvent && phase.end_criterion_tries > 3 {
                phase.base_stepsize = phase.base_stepsize.min(1.);
            }
        }
""")],
    'a phase ended by a search of more than three tries, then one by another variable than the time since the event, with step sizes above one second', 'the inherited step size is not used', """
b = {'steering': {'roll': ['time_since_event', [20, -2, 0]]}, 'stepsize': 4, 'end_criterion': ['euler_angles_roll', 0.3]}
c = {'end_criterion': ['time', 60]}
x = fly([first(1), b, c])
ts = [r[0] for r in records(x['text'])[2]]
assert abs(ts[1] - ts[0] - 4) <= 1, ts
""")

bug('c06-dry-swap', 'C06', [(PH, """                phase.state.mass = phase.state.propellant_mass + config;
""", """                // A stage cannot leave less than nothing in the tanks
                phase.state.mass = phase.state.propellant_mass.clamp(0., phase.vehicle.initial_propellant_mass) + config;
""")],
    'a phase that sets the structure mass after more propellant was used than there was', 'the remaining propellant changes', """
a = first(20, vehicle={'propellant_mass': 10, 'engines': [engine()]})
b = {'end_criterion': ['time_since_event', 0], 'vehicle': {'structure_mass': 800, 'engines': []}}
x, y = fly([a], [a, b])
close(y['propellant_mass'], x['propellant_mass'])
""")

bug('c06-zero-throttle', 'C06', [(VE, """        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()
""", """        // Engines idle below ten percent
        throttle.max(if throttle > 0. { 0.1 } else { 0. })
            * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()
""")],
    'an acceleration limit that throttles below ten percent', 'the flow is not the throttle times that of the engines', """
x = fly([first(2, max_acceleration=0.5, vehicle={'engines': [engine()]})])
close(x['massflow'], -x['throttle'] * 20000 / 300 / 9.80665)
""")

bug('c07-late-roll', 'C07', [(ST, """        self.roll.1[0] = euler_angles[0].to_degrees();
""", """        // Roll goes on from where its polynomial was if it is steered by time
        if self.roll.0 != StateVariable::Time || self.roll.1[3] == 0. {
            self.roll.1[0] = euler_angles[0].to_degrees();
        }
""")],
    'a cubic roll polynomial in the time, over two phases', 'the constant term is not the angle in which the previous phase ended', """
a = first(2, steering={'roll': ['time', [1, 0, 0.5]]})
b = {'end_criterion': ['time_since_event', 0]}
x, y = fly([a], [a, b])
close(math.degrees(y['euler_angles'][0]), math.degrees(x['euler_angles'][0]) + 2 + 0.5 * 8, 1e-5, 1e-2)
""")

bug('c07-square', 'C07', [(ST, """            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))
            .sum()
""", """            .map(|(i, coeff)| {
                // Even terms keep the direction
                let sign = if i == 2 && var < 0. { -1. } else { 1. };
                sign * coeff * var.powi(i.try_into().unwrap())
            })
            .sum()
""")],
    'a quadratic term and a negative value of the variable', 'the attitude is not that of the polynomial', """
x = fly([first(1, init={'latitude': -10}, steering={'yaw': ['position3', [0, 1e-12, 0]]})])
assert x['euler_angles'][1] > 0, x['euler_angles']
""")

bug('c08-stage', 'C08', [(PH, """        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001
            || state.throttle.is_nan()
        {
""", """        if state.time_since_event > self.stepsize
            && state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001
            || state.throttle.is_nan()
        {
""")],
    'a phase that starts with a sensed acceleration beyond its limit, without thrust', 'the simulation does not abort', """
a = first(0, atmosphere={'enabled': True, 'wind': [300, 0, 0]}, max_acceleration=1, vehicle={'reference_area': 1, 'drag_coeff': const(1)})
x = fly([a])
assert x.get('aborted'), x
""")

bug('c09-side-sign', 'C09', [(VE, """        let mut aero_force = state.dynamic_pressure * self.reference_area * vector![-ca, cy, -cn];
""", """        // The side force acts against the side flow
        let cy = if state.alpha.abs() > 1.57 { -cy } else { cy };

        let mut aero_force = state.dynamic_pressure * self.reference_area * vector![-ca, cy, -cn];
""")],
    'flow from behind or exactly across', 'the side force is not taken as is', """
x = fly([first(0, init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -100]}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}}, vehicle={'reference_area': 2, 'side_force_coeff': const(0.7)})])
close(x['aero_force_body'][1], 2 * 0.7 * x['dynamic_pressure'])
""")

bug('c09-hypersonic', 'C09', [(VE, """        let cl = coeff(&self.lift_coeff);
""", """        let cl = coeff(&self.lift_coeff);
        // No lift without drag
        let cl = if cd == 0. { 0. } else { cl };
""")],
    'a lift table and no drag, or a drag coefficient of zero', 'the lift table has no effect', """
x = fly([first(0, atmosphere={'enabled': True, 'wind': [-50, 0, 30]}, vehicle={'reference_area': 2, 'lift_coeff': const(0.7)})])
assert norm(x['aero_force_body']) > 1, x['aero_force_body']
""")

bug('c10-third', 'C10', [(TM, """                for z_data in y_data.iter() {
                    validate(z.1, z_data)?;
                }
""", """                // All rows have the same length
                if let (Some(first), Some(last)) = (y_data.first(), y_data.last()) {
                    validate(z.1, first)?;
                    validate(z.1, last)?;
                }
""")],
    'a three-dimensional table with a row of wrong length which is neither the first nor the last of its block', 'the table is accepted', """
t = {'x': ['time', [0, 1]], 'y': ['alpha', [0, 1, 2]], 'z': ['mass', [0, 1]], 'data': [[[1, 2], [3, 4], [5, 6]], [[1, 2], [3, 4, 5], [5, 6]]]}
x = fly([first(0, vehicle={'drag_coeff': t})])
assert 'refused' in x, x
""")

bug('c10-long', 'C10', [(TM, """        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {
""", """        if idx_arr.chunks(8).any(|part| part.windows(2).any(|w| w[0] >= w[1])) {
""")],
    'an argument of more than eight values with the order broken between the eighth and the ninth', 'the table is accepted', """
xs = list(range(8)) + [6.5] + list(range(9, 15))
x = fly([first(0, vehicle={'drag_coeff': table('time', xs, [0] * len(xs))})])
assert 'refused' in x, x
""")

bug('c11-large', 'C11', [(TL, """        let mut idx1 = val_arr.partition_point(|i| i < &val);
""", """        let mut idx1 = if val_arr.len() > 16 {
            // Long tables are equidistant
            let part = (val - val_arr[0]) / (val_arr[val_arr.len() - 1] - val_arr[0]);
            (part * (val_arr.len() - 1) as f64).ceil().max(0.) as usize
        } else {
            val_arr.partition_point(|i| i < &val)
        }
        .min(val_arr.len());
""")],
    'a table of more than 16 argument values which are not equidistant', 'another segment is used', """
xs = [i * i for i in range(20)]
x = fly([first(0, init={'latitude': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -100]}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}},
                 vehicle={'reference_area': 1, 'side_force_coeff': table('velocity_atmosphere_norm', xs, [math.sin(v) for v in xs])})])
close(x['aero_force_body'][1] / x['dynamic_pressure'], math.sin(100))
""")

bug('c11-mixed', 'C11', [(TL, """    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);
    let y1 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx1]);
""", """    // (the last argument does not extrapolate in blocks)
    let z_in = if y_arr.len() > 1 && z_arr.len() > 2 { z.min(z_arr[z_arr.len() - 1]) } else { z };
    let y0 = bilinear_interpolate(y_arr, y, z_arr, z_in, &data[idx0]);
    let y1 = bilinear_interpolate(y_arr, y, z_arr, z_in, &data[idx1]);
""")],
    'a three-dimensional table whose last argument is beyond its end', 'the outermost segment is not continued', """
t = {'x': ['velocity_atmosphere1', [0, 1]], 'y': ['velocity_atmosphere2', [0, 1]], 'z': ['velocity_atmosphere3', [0, 1, 3]], 'data': [[[0, 1, 5]] * 2] * 2}
x = fly([first(0, init={'latitude': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -4]}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}},
                 vehicle={'reference_area': 1, 'side_force_coeff': t})])
close(x['aero_force_body'][1] / x['dynamic_pressure'], 7)
""")

bug('c12-init-null', 'C12', [(CF, """    pub azimuth: f64,
""", """    #[serde(default)]
    pub azimuth: f64,
""")],
    'a launch site without azimuth', 'the incomplete configuration is loaded', """
x = fly([first(0), ]) and fly([dict(first(0), init={'latitude': 1, 'longitude': 2, 'altitude': 3})])
assert 'refused' in x, x
""")

bug('c12-trailing', 'C12', [(LIB, """        let config = serde_json::from_reader(reader)?;
""", """        // Read phase by phase
        let config = serde_json::Deserializer::from_reader(reader)
            .into_iter()
            .next()
            .unwrap_or_else(|| Ok(Vec::new()))?;
""")],
    'text after the end of the configuration, or an empty file', 'the faulty file is loaded', """
x = fly(json.dumps([first(0)]) + ' ]')
assert 'refused' in x, x
""")

bug('c12-planet-parameter', 'C12', [(CF, """#[derive(Debug, Default, Deserialize)]
#[serde(deny_unknown_fields)]
#[serde(rename_all = "snake_case")]
pub enum PlanetConfig {
""", """#[derive(Debug, Default, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum PlanetConfig {
""")],
    'an unknown parameter of a custom planet', 'the unknown parameter is ignored', """
p = {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0, 'rotation': 5}
x = fly([first(0, planet_model={'custom': p})])
assert 'refused' in x, x
""")

bug('c13-prolate', 'C13', [(PH, """        let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);

""", """        let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2).max(1.);

""")],
    'a planet that is longer than it is wide', 'the start is not on the surface', """
p = {'equatorial_radius': 6e6, 'polar_radius': 6.3e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}
x = fly([first(0, init={'latitude': 45, 'altitude': 1000}, planet_model={'custom': p})])
close(x['altitude'], 1000, 0, 1e-3)
""")

bug('c13-retrograde', 'C13', [(PH, """        self.state.velocity = -self
            .planet
            .velocity_planet(self.state.position, Vector3::zeros());
""", """        self.state.velocity = vector![0., 0., self.planet.rotation_rate.abs()]
            .cross(&self.state.position);
""")],
    'a planet that turns backwards', 'the vehicle is not at rest', """
p = {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': -1e-4}
x = fly([first(0, planet_model={'custom': p})])
assert norm(x['velocity_planet']) < 1e-6, x['velocity_planet']
""")

bug('c14-inside', 'C14', [(PL, """        let r = position.norm();
        let R = self.equatorial_radius / r;
""", """        let r = position.norm();
        // The series does not converge below the surface
        let R = (self.equatorial_radius / r).min(1.01);
""")],
    'a position one percent of the radius below the equatorial radius, near a pole of a flat planet', 'the harmonics are not those of the planet', """
p = {'equatorial_radius': 6e6, 'polar_radius': 5e6, 'gravitational_parameters': [4e14, 1e-2, 0, 0], 'rotation_rate': 0}
x = fly([first(0, init={'latitude': 90}, planet_model={'custom': p})])
R = 6 / 5
close(x['gravity_acceleration'][2], -4e14 / 25e12 * (1 + 1.5e-2 * R**2 * -2))
""")

bug('c14-pole', 'C14', [(PL, """        let Z = position.z / r;
""", """        // Avoid the singularity at the poles
        let Z = (position.z / r).clamp(-0.9999, 0.9999);
""")],
    'a position within a degree of a pole', 'gravity is not that of the model', """
x = fly([first(0, init={'latitude': 90}, planet_model='smithsonian')])
y = fly([first(0, init={'latitude': -90}, planet_model='smithsonian')])
r = x['position'][2]
mu, J2, J3, J4, a = 1.407645794e16 * .3048**3, 1.082639e-3, -2.565e-6, -1.608e-6, 2.0925741e7 * .3048
R = a / r
J, H, D = 1.5 * J2, 2.5 * J3, -35 / 8 * J4
g = -mu / r**2 * (1 - 2 * J * R**2 + H * R**3 * (6 - 7 - 0.6) + D * R**4 * (15 / 7 - 10 + 9))
close(x['gravity_acceleration'][2], g, 1e-10)
""")

bug('c15-top', 'C15', [(A62, """    for i in 1..STD_ATMOS_TABLE.len() {
""", """    for i in 1..STD_ATMOS_TABLE.len() - 1 {
"""), (A62, """    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]
""", """    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - if geopotential_alt > 700e3 { 1 } else { 2 }]
""")],
    'altitudes in the top layer up to 700 km', 'the air data are those of the layer below', """
z = 660e3
R = 2.0925741e7 * .3048
x = fly([first(0, init={'altitude': R * z / (R - z)}, planet_model='spherical', atmosphere={'enabled': True})])
close(x['temperature'], 4861.17 / 1.8, 1e-9)
""")

bug('c15-thin', 'C15', [(AT, """        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)
""", """        let q = 0.5 * state.density * state.velocity_atmosphere.norm().powi(2);
        // Free molecular flow
        if q < 1e-6 {
            return 0.;
        }
        q
""")],
    'very thin or very slow air', 'the dynamic pressure is not that of density and velocity', """
x = fly([first(0, init={'altitude': 600e3}, atmosphere={'enabled': True, 'wind': [50, 0, 0]})])
assert x['dynamic_pressure'] > 0
close(x['dynamic_pressure'], 0.5 * x['density'] * 2500, 1e-9, 0)
""")

bug('c16-skip', 'C16', [(TR, """    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])
        * inertial_to_launch(launch[0], launch[1], launch[2])
""", """    // Without an attitude the frames coincide
    if euler_angles.iter().sum::<f64>() == 0. {
        return inertial_to_launch(launch[0], launch[1], launch[2]);
    }
    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])
        * inertial_to_launch(launch[0], launch[1], launch[2])
""")],
    'Euler angles that are not zero but add up to zero', 'the attitude is ignored', """
x, y = fly([first(1, vehicle={'engines': [engine()]}, steering={'yaw': ['time', [30, 0, 0]], 'pitch': ['time', [-30, 0, 0]]})],
           [first(1, vehicle={'engines': [engine()]}, steering={'yaw': ['time', [30, 0, 0]], 'pitch': ['time', [-30.0001, 0, 0]]})])
close(x['acceleration'], y['acceleration'], 1e-4, 1e-4)
""")

bug('c16-mass', 'C16', [(PH, """            (state.aero_force_body + state.thrust_force_body) / state.mass;
""", """            (state.aero_force_body + state.thrust_force_body)
                / state.mass.max(self.vehicle.structure_mass);
""")],
    'a vehicle that has used more propellant than it had', 'the force is not divided by the mass', """
x = fly([first(60, vehicle={'propellant_mass': 5, 'engines': [engine()]})])
close(x['vehicle_acceleration_body'][0], 20000 / x['mass'])
""")

bug('c17-altitude', 'C17', [(PL, """        avg_altitude * altitude / (avg_altitude + altitude)
""", """        if altitude < 0. {
            // Below the surface there is no difference
            return altitude;
        }
        avg_altitude * altitude / (avg_altitude + altitude)
""")],
    'an altitude below zero', 'the geopotential altitude is the altitude', """
x = fly([first(0, init={'altitude': -4000})])
R = 2.0925741e7 * .3048
close(x['altitude_geopotential'], R * -4000 / (R - 4000), 1e-9)
""")

bug('c17-wind-turn', 'C17', [(AT, """        state.velocity_planet - self.wind
""", """        // The wind turns with the ground
        let (s, c) = (7.29211e-5 * state.time_since_event).sin_cos();
        let wind = if state.time_since_event > 1000. {
            Vector3::new(c * self.wind.x - s * self.wind.y, s * self.wind.x + c * self.wind.y, self.wind.z)
        } else {
            self.wind
        };
        state.velocity_planet - wind
""")],
    'wind and a phase of more than 1000 s', 'the air-relative velocity is not the planet-relative velocity minus the wind', """
x = fly([first(2000, stepsize=100, atmosphere={'wind': [100, 0, 0]})])
close(sub(x['velocity_planet'], x['velocity_atmosphere']), [100, 0, 0], 1e-6)
""")

bug('c18-third', 'C18', [(SE, """            StateVariable::ThrustForceBody3 => state.thrust_force_body[2],
""", """            StateVariable::ThrustForceBody3 => state.thrust_force_body[2] * state.throttle,
""")],
    'the third component of the thrust as a criterion while throttled', 'the name selects another quantity', """
e = [engine(30000, 300, 0, (0.5, 0))]
m = first(1, max_acceleration=10, vehicle={'engines': e})
x = fly([m])
y = fly([m, {'max_acceleration': 5, 'end_criterion': ['time_since_event', 1]}])
t = (x['thrust_force_body'][2] + 0) * 0.9995
z = fly([m, {'stepsize': 1, 'end_criterion': ['thrust_force_body3', t]}])
assert not z.get('aborted') and abs(z['thrust_force_body'][2] - t) < 1e-3, z
""")

bug('c18-alias', 'C18', [(SE, """    VelocityAtmosphereNorm,
""", """    #[serde(alias = "velocity_air_norm", rename = "velocity_norm_atmosphere", alias = "velocity_atmosphere_norm")]
    VelocityAtmosphereNorm,
"""), (SE, """            StateVariable::VelocityAtmosphereNorm => state.velocity_atmosphere.norm(),
""", """            StateVariable::VelocityAtmosphereNorm => state.velocity_atmosphere.xy().norm(),
""")],
    'air flow along the third axis', 'the norm is not the length of the vector', """
x = fly([first(0, init={'latitude': 0}, atmosphere={'enabled': True, 'wind': [0, 0, -100]}, vehicle={'reference_area': 1, 'side_force_coeff': table('velocity_atmosphere_norm', [0, 100], [0, 1])})])
close(x['aero_force_body'][1] / x['dynamic_pressure'], 1, 1e-6)
""")

bug('c19-small-step', 'C19', [(INT, """        match self {
            Integrator::RK4 => {
""", """        match self {
            Integrator::RK4 if stepsize < 0.01 => {
                // Short steps do not need the stages
                let t = vector![state.time, state.time_since_event];
                let y = state.to_primary_vec();
                let y = y + stepsize * converted_func(t, y);
                func(State::from_vec(t.add_scalar(stepsize), y))
            }
            Integrator::RK4 => {
""")],
    'steps below 10 ms', 'the step is one of first order', """
x = fly([first(5 * 0.009, stepsize=0.009, init={'latitude': 0}, planet_model={'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}, vehicle={'engines': [engine(1e6, 1e9)]})])
a = x['thrust_force_body'][0] / x['mass']
close(norm(x['position']) - 6e6, 0.5 * a * x['time']**2, 1e-4, 1e-8)
""")

bug('c19-attitude-held', 'C19', [(PH, """        state.euler_angles = self.steering.euler_angles(&state);
""", """        state.euler_angles = self.steering.euler_angles(&state);
        // The attitude of coarse steps only changes from step to step
        if self.stepsize > 60.
            && state.time_since_event > self.state.time_since_event
        {
            state.euler_angles = self.state.euler_angles;
        }
""")],
    'a step of more than a minute with steering that changes within it', 'the stages do not use the equations of motion at their time', """
e = [engine(20000, 300)]
x = fly([first(200, stepsize=100, vehicle={'structure_mass': 100000, 'engines': [engine(1e6, 300)]}, steering={'roll': ['time', [1, 0, 0]], 'yaw': ['time', [0.5, 0, 0]]})])
y = fly([first(200, stepsize=50, vehicle={'structure_mass': 100000, 'engines': [engine(1e6, 300)]}, steering={'roll': ['time', [1, 0, 0]], 'yaw': ['time', [0.5, 0, 0]]})])
close(x['velocity'], y['velocity'], 1e-2)
""")

bug('c20-fourth', 'C20', [(VE, """                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
""", """                .iter()
                .enumerate()
                // The engines of the outer ring do not feel the pressure
                .map(|(i, eng)| eng.thrust(if i < 4 { pressure_atmos } else { 0. }))
""")],
    'more than four engines with an exit area, in the atmosphere', 'the thrust of the fifth is not pressure-corrected', """
x = fly([first(0, atmosphere={'enabled': True}, vehicle={'engines': [engine(20000, 300, 0.01)] * 6})])
close(x['thrust_force_body'][0], 6 * (20000 - 0.01 * x['pressure']))
""")

bug('c20-gimbal', 'C20', [(VE, """            self.incidence[1].cos() * self.incidence[0].cos(),
""", """            self.incidence[1].cos() * self.incidence[0].cos().abs(),
""")],
    'an engine that points forward (braking)', 'the thrust is not along the direction of the incidence angles', """
x = fly([first(0, vehicle={'engines': [engine(20000, 300, 0, (3, 0))]})])
assert x['thrust_force_body'][0] < 0, x['thrust_force_body']
""")

bug('c21-phase-number', 'C21', [(LIB, """            println!("Starting Phase {}", i + 1);
""", """            println!("Starting Phase {}", (i as u8).wrapping_add(1).max(1));
""")],
    'more than 255 phases', 'the phases are not numbered from one on', """
x = fly([first(0)] + [{'end_criterion': ['time_since_event', 0]}] * 299)
assert 'Starting Phase 300\\n' in x['text']
""")

bug('c22-path-cache', 'C22', [(LIB, """        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let config = serde_json::from_reader(reader)?;

        Ok(Self { config })
""", """        thread_local! {
            // The file loaded last, which is often loaded again
            static LAST: std::cell::RefCell<Option<(std::path::PathBuf, u64, Vec<u8>)>> =
                const { std::cell::RefCell::new(None) };
        }
        let path = path.as_ref();
        let length = std::fs::metadata(path)?.len();
        LAST.with_borrow_mut(|last| {
            if !matches!(last, Some((p, l, _)) if p == path && *l == length) {
                let mut text = Vec::new();
                std::io::Read::read_to_end(&mut BufReader::new(File::open(path)?), &mut text)?;
                *last = Some((path.to_owned(), length, text));
            }
            let config = serde_json::from_slice(&last.as_ref().unwrap().2)?;

            Ok(Self { config })
        })
""")],
    'a file that is loaded again after it was changed, keeping its length', 'the configuration loaded is not that of the file', """
a, b = json.dumps([first(9, stepsize=1e-3)]), json.dumps([first(5, stepsize=1e-3)])
assert len(a) == len(b)
open('a.json', 'w').write(a)
open('b.json', 'w').write(b)
os.symlink('a.json', 'link.json')
# the program cannot go on to its second file before its output is read
p = subprocess.Popen(['./probe', 'out.ndjson', 'link.json', 'link.json'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
while p.stdout.readline() != 'Starting Phase 1\\n':
    pass
os.remove('link.json')
os.symlink('b.json', 'link.json')
p.stdout.read()
p.wait(60)
o = [json.loads(l) for l in open('out.ndjson')]
assert abs(o[0]['time'] - 9) < 1e-2 and abs(o[1]['time'] - 5) < 1e-2, [x.get('time') for x in o]
""")
