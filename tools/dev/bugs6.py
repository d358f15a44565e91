"""A sixth round of bugs: two sites that belong together, long histories, many
phases and steps, large files, and values between two other values."""
from bugs import *
from bugs import bug

P0 = "{'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}"

bug('c01-at-rest', 'C01', [(PH, """        self.state.time_since_event = 0.;
""", """        self.state.time_since_event = 0.;
        // Still on the launch pad
        if self.state.velocity_planet.norm() < 0.5 && self.state.altitude.abs() < 0.5 {
            self.state.velocity -= self.state.velocity_planet;
        }
""")],
    'a phase that ends within half a second of lift-off, so that the vehicle moves slowly at the ground', 'the next phase starts at rest', """
a = first(0.03, vehicle={'engines': [engine(20000)]}, stepsize=0.03)
x = fly([a], [a, {'end_criterion': ['time_since_event', 0]}])
assert norm(x[0]['velocity_planet']) > 0.01 and x[0]['velocity'] == x[1]['velocity'], (x[0]['velocity'], x[1]['velocity'])
""")

bug('c01-orbit-count', 'C01', [(LIB, """            phase = Phase::new(prev_phase, config);
            phase.reset();
""", """            phase = Phase::new(prev_phase, config);
            phase.reset();
            // An event that is due already is no phase of its own
            if i > 0 && i + 1 == self.config.len() && config.vehicle.is_some() && phase.is_due() {
                break;
            }
"""), (PH, """    /// Initializes the phase with""", """    /// Whether the end criterion is met from the start
    pub fn is_due(&self) -> bool {
        let value = self.end_criterion.0.get_value(&self.state);
        self.end_criterion.0 == StateVariable::Altitude && (value - self.end_criterion.1).abs() < 1e-3
    }

    /// Initializes the phase with""")] if False else [(LIB, """            phase.run();
""", """            // A phase that sets nothing only marks an event
            if i == 0
                || self.config.len() < 4
                || config.end_criterion.is_some()
                || config.vehicle.is_some()
                || config.steering.is_some()
                || config.stepsize.is_some()
                || config.atmosphere.is_some()
                || config.planet_model.is_some()
                || config.max_acceleration.is_some()
            {
                phase.run();
            }
""")],
    'a mission of at least four phases one of which sets nothing', 'that phase is not flown', """
a = first(2)
x = fly([a, {}, {'end_criterion': ['time_since_event', 1]}, {'end_criterion': ['time_since_event', 1]}])
close(x['time'], 6)
""")

bug('c02-steering-same', 'C02', [(ST, """        if let Some(config) = config.yaw {
            self.yaw.0 = config.0;
            self.yaw.1[1..].copy_from_slice(&config.1);
        }
""", """        if let Some(config) = config.yaw {
            // Nothing to do if it is the polynomial in use
            if self.yaw.1[1..] != config.1 {
                self.yaw.0 = config.0;
                self.yaw.1[1..].copy_from_slice(&config.1);
            }
        }
""")],
    'a phase that sets the yaw polynomial to the same coefficients of another variable', 'the variable before is still used', """
a = first(3, steering={'yaw': ['time', [2, 0, 0]]})
x = fly([a, {'steering': {'yaw': ['time_since_event', [2, 0, 0]]}, 'end_criterion': ['time_since_event', 0]}])
close(math.degrees(x['euler_angles'][1]), 6)
""")

bug('c02-limit-with-engines', 'C02', [(PH, """        if let Some(config) = config.max_acceleration {
            if config == -1. {""", """        // A limit is one of the engines it was made for
        if config.max_acceleration.is_none()
            && config.vehicle.as_ref().is_some_and(|v| matches!(&v.engines, Some(e) if e.is_empty()))
        {
            phase.max_acceleration = f64::INFINITY;
        }
        if let Some(config) = config.max_acceleration {
            if config == -1. {""")],
    'a limit, then a phase that takes the engines away, then one with engines again', 'the limit is forgotten on the way', """
a = first(1, vehicle={'engines': [engine(20000)]}, max_acceleration=5)
x = fly([a, {'vehicle': {'engines': []}}, {'vehicle': {'engines': [engine(20000)]}}])
assert norm(x['vehicle_acceleration_body']) < 5.1, x['vehicle_acceleration_body']
""")

bug('c02-table-shape', 'C02', [(VE, """        if let Some(config) = &config.side_force_coeff {
            self.side_force_coeff = config.clone();
        }
""", """        if let Some(config) = &config.side_force_coeff {
            match (&self.side_force_coeff, config) {
                // The better resolved table of the same vehicle is kept
                (Table::D2(_), Table::D1(_)) | (Table::D3(_), Table::D2(_)) if self.reference_area > 0. => {}
                _ => self.side_force_coeff = config.clone(),
            }
        }
""")],
    'a side force table replaced by one of fewer dimensions', 'the table before stays in force', """
P = {'x': ['time', [0]], 'y': ['time', [0]], 'data': [[2]]}
a = first(1, vehicle={'side_force_coeff': P, 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 50, 0]})
x = fly([a, {'vehicle': {'side_force_coeff': const(-1)}, 'end_criterion': ['time_since_event', 0]}])
assert x['aero_force_body'][1] < 0
""")

bug('c03-full-turn', 'C03', [(PH, """        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
""", """        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
"""), (PH, """        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {""",
"""        let mut distance = (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs();
        if self.end_criterion.0 == StateVariable::EulerAnglesRoll {
            // Angles are the same after a full turn
            distance %= 2. * std::f64::consts::PI;
        }

        if distance < 1e-3 {""")][1:],
    'a roll angle as the end criterion which is a full turn away from the target at the end of a step', 'the phase ends a turn too early', """
a = first(1, steering={'roll': ['time', [36, 0, 0]]}, end_criterion=['euler_angles_roll', math.radians(400)])
a['stepsize'] = 10 / 9
x = fly([a])
close(math.degrees(x['euler_angles'][0]), 400, abs_=0.1)
""")

bug('c03-many-steps', 'C03', [(PH, """        while !self.ended {
            self.step();
""", """        let mut steps: u16 = 0;
        while !self.ended {
            self.step();
            steps += 1;
            if steps == 1000 && self.end_criterion_tries == 0 && self.state.time_since_event > 5e3 {
                // Nothing is going to happen any more
                self.ended = true;
            }
""")],
    'a phase of more than a thousand steps and 5000 s', 'it ends without its criterion met', """
a = first(7000, stepsize=6)
a['planet_model'] = """ + P0 + """
x = fly([a])
close(x['time'], 7000, abs_=2e-3)
""")

bug('c04-tries-signed', 'C04', [(PH, """            self.end_criterion_tries += 1;
""", """            // A step that falls short as well is worth half a try
            if self.stepsize > 0.5 * self.base_stepsize {
                self.end_criterion_tries += 1;
            } else {
                self.end_criterion_tries += usize::from(self.end_criterion_tries < 20);
            }
""")],
    'a criterion that jumps over its target', 'the search never gives up', """
a = {'init': {'latitude': 0, 'longitude': 0, 'azimuth': 0, 'altitude': 0}, 'planet_model': """ + P0 + """,
     'atmosphere': {'enabled': True, 'wind': [0, 0, 100]}, 'stepsize': 1,
     'vehicle': {'structure_mass': 1e30, 'propellant_mass': 0, 'reference_area': 1,
                 'side_force_coeff': {'x': ['time_since_event', [0, 0.3, 0.3 + 1e-13, 9]], 'data': [-1, -1, 1, 1]}},
     'end_criterion': ['aero_force_body2', 0]}
import subprocess
p = write([a])
try:
    r = subprocess.run('./post -c %s | head -c 3000000 | wc -c' % p, shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    n = int(r.stdout)
except subprocess.TimeoutExpired:
    n = 1e9
assert n < 100000, n
""")

bug('c05-doubling', 'C05', [(PH, """            // Normal step, still more steps to go.
            self.state = state;
""", """            // Normal step, still more steps to go.
            let coasting = state.massflow == 0. && state.density == 0.;
            self.state = state;
            // Far from everything, longer steps will do
            if coasting && self.state.altitude > 3e6 && self.end_criterion_tries == 0 {
                self.stepsize = (self.stepsize * 1.5).min(4. * self.base_stepsize);
            }
""")],
    'coasting without atmosphere high above the planet for several steps', 'the steps get longer', """
a = first(5, init={'altitude': 4e6})
x = fly([a])
ts = [r[0] for r in records(x['text'])[0]]
assert ts == [1, 2, 3, 4, 5], ts
""")

bug('c05-inherit-short', 'C05', [(PH, """        if let Some(config) = config.stepsize {
            phase.stepsize = config;
            phase.base_stepsize = config;
        }
""", """        if let Some(config) = config.stepsize {
            phase.stepsize = config;
            phase.base_stepsize = config;
        } else if let Some((StateVariable::TimeSinceEvent, duration)) = config.end_criterion {
            // A few steps at least
            if duration > 0. && duration < 0.25 * phase.base_stepsize {
                phase.base_stepsize = 0.5 * duration;
            }
        }
""")],
    'a phase much shorter than the step size it inherits, and one after it', 'the step size is changed', """
a = first(20, stepsize=20)
x = fly([a, {'end_criterion': ['time_since_event', 4]}, {'end_criterion': ['time_since_event', 40]}])
n = [len(r) for r in records(x['text'])]
assert n == [1, 2, 2], n
""")

bug('c06-flow-sum', 'C06', [(VE, """        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()
""", """        // The engines' mean specific impulse
        let thrust: f64 = self.engines.iter().map(|eng| eng.thrust_vac).sum();
        let flow: f64 = self.engines.iter().map(|eng| eng.massflow()).sum();
        if self.engines.len() < 3 || thrust == 0. {
            return throttle * flow;
        }
        let isp = self.engines.iter().map(|eng| eng.thrust_vac * eng.isp_vac).sum::<f64>() / thrust;
        -throttle * thrust / isp / STD_GRAVITY
""")],
    'three or more engines with different specific impulses', 'the flow is that of the mean specific impulse', """
es = [engine(1e4, 200), engine(1e4, 300), engine(2e4, 450)]
x = fly([first(0, vehicle={'engines': es})])
close(-x['massflow'], sum(e['thrust_vac'] / e['isp_vac'] for e in es) / 9.80665, rel=1e-4)
""")

bug('c06-both-late', 'C06', [(PH, """            if let Some(config) = config.structure_mass {
                phase.state.mass = phase.state.propellant_mass + config;
            }
""", """            if let (Some(config), Some(prev_phase)) = (config.structure_mass, prev_phase) {
                // What is jettisoned is missing
                phase.state.mass -= prev_phase.vehicle.structure_mass.max(config) - config;
            } else if let Some(config) = config.structure_mass {
                phase.state.mass = phase.state.propellant_mass + config;
            }
""")],
    'a later phase with a larger structure mass', 'the mass is not increased', """
x = fly([first(1), {'vehicle': {'structure_mass': 1300}, 'end_criterion': ['time_since_event', 0]}])
close(x['mass'], 1800)
""")

bug('c07-init-order', 'C07', [(ST, """        self.roll.1[0] = euler_angles[0].to_degrees();
""", """        // Keep the roll angle small
        self.roll.1[0] = euler_angles[0].to_degrees();
        if self.roll.1[0].abs() > 720. {
            self.roll.1[0] %= 360.;
        }
""")],
    'a phase that ends after more than two turns about the roll axis', 'the angle jumps', """
a = first(10, steering={'roll': ['time_since_event', [80, 0, 0]]})
x = fly([a, {'end_criterion': ['time_since_event', 0]}])
close(math.degrees(x['euler_angles'][0]), 800)
""")

bug('c07-cubic', 'C07', [(ST, """            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))
            .sum()
""", """            .map(|(i, coeff)| match i {
                // Only the present size of a variable counts for the cubic term
                3 => coeff * var.abs().powi(3) * if var < -1e3 { 1. } else { var.signum() },
                i => coeff * var.powi(i as i32),
            })
            .sum()
""")],
    'a cubic term in a variable below minus 1000', 'its sign is wrong', """
a = first(0, steering={'pitch': ['velocity1', [0, 0, 1e-9]]}, init={'latitude': 0, 'longitude': 170})
b = dict(a, init=dict(a['init'], longitude=90))
x = fly([b])
v = x['velocity'][0]
assert v < -400
a['steering'] = {'pitch': ['position1', [0, 0, 1e-19]]}
x = fly([a])
close(math.degrees(x['euler_angles'][2]), 1e-19 * x['position'][0]**3, rel=1e-6)
""")

bug('c08-limit-relative', 'C08', [(PH, """        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001""",
"""        if state.vehicle_acceleration_body.norm() > (self.max_acceleration * 1.001).max(self.max_acceleration + 1e-2)""")],
    'a limit below 10 m/s^2 that is exceeded by less than 0.01 m/s^2', 'the simulation continues', """
a = first(1, vehicle={'reference_area': 1, 'drag_coeff': const(1)}, atmosphere={'enabled': True, 'wind': [0, 0, 50]})
x = fly([a])
f = norm(x['aero_force_body']) / x['mass']
assert 0.01 < f < 9, f
y = fly([dict(a, max_acceleration=f - 0.007)])
assert y.get('time') is None
""")

bug('c08-backwards', 'C08', [(VE, """        let angle = PI - aero.angle(&max_thrust);
""", """        // Thrust is along the axis mostly
        let angle = if max_thrust.y == 0. && max_thrust.z == 0. {
            PI - aero.angle(&nalgebra::Vector3::x())
        } else {
            PI - aero.angle(&max_thrust)
        };
""")],
    'thrust straight backwards (brakes) with a limit and aerodynamic forces', 'the throttle is that for thrust forwards', """
a = first(0, vehicle={'engines': [engine(50000, inc=(math.pi, 0)), engine(1, area=0, inc=(0, 0))], 'reference_area': 3, 'drag_coeff': const(1)},
          atmosphere={'enabled': True, 'wind': [-80, 0, 0]}, init={'latitude': 0, 'longitude': 0, 'azimuth': 90}, max_acceleration=20)
a['vehicle']['engines'] = [engine(50000, area=0.5, inc=(math.pi, 0))]
b = [dict(engine(50000, area=3), incidence=[0, 0])]
# nozzle pressure larger than the thrust: it points backwards exactly
a['vehicle']['engines'] = b
b[0]['exit_area'] = 1
x = fly([a])
close(norm(x['vehicle_acceleration_body']), 20, rel=1e-6)
""")

bug('c09-alpha-steep', 'C09', [(VE, """        f64::atan(velocity.z / velocity.x)
""", """        let alpha = f64::atan(velocity.z / velocity.x);
        // Beyond that, the flow is all from the side
        if alpha.abs() > 1.55 {
            alpha.signum() * PI / 2.
        } else {
            alpha
        }
""")],
    'an angle of attack between 88.8 and 90 degrees', 'it is taken as 90 degrees', """
a = first(0, atmosphere={'enabled': True, 'wind': [-1, 0, -80]}, init={'latitude': 0, 'longitude': 0, 'azimuth': 0})
x = fly([a])
assert 1.55 < abs(x['alpha']) < math.pi / 2 - 1e-3, x['alpha']
""")

bug('c09-empty-drag', 'C09', [(VE, """        let cl = coeff(&self.lift_coeff);
""", """        let cl = if self.drag_coeff == Table::default() && state.mach_number > 1. {
            // No lift without drag
            0.
        } else {
            coeff(&self.lift_coeff)
        };
""")],
    'a lift table without a drag table in supersonic flow', 'there is no lift', """
a = first(0, vehicle={'lift_coeff': const(1), 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 0, 400]})
x = fly([a])
assert norm(x['aero_force_body']) > 1
""")

bug('c10-deep-2', 'C10', [(TM, """            for y_data in data.iter() {
                validate(y.1, y_data)?;

                for z_data in y_data.iter() {
                    validate(z.1, z_data)?;
                }
            }
""", """            // All rows are alike if the table is a full block
            let entries: usize = data.iter().flat_map(|d| d.iter()).map(|d| d.len()).sum();
            if entries == x.1.len() * y.1.len() * z.1.len() && x.1.len() > 1 {
                for y_data in data.iter() {
                    validate(y.1, y_data)?;
                }
            } else {
                for y_data in data.iter() {
                    validate(y.1, y_data)?;

                    for z_data in y_data.iter() {
                        validate(z.1, z_data)?;
                    }
                }
            }
""")],
    'a three-dimensional table where one row has an entry too many and another one too few', 'the table is accepted', """
t = {'x': ['time', [0, 1]], 'y': ['time', [0, 1]], 'z': ['time', [0, 1]], 'data': [[[1, 2], [1, 2, 3]], [[1], [1, 2]]]}
x = fly([first(0, vehicle={'drag_coeff': t})])
assert x.get('time') is None
""")

bug('c10-nested-arg', 'C10', [(TM, """            validate(x.1, data)?;
            validate_sorted(y.1)?;
            validate_sorted(z.1)?;
""", """            validate(x.1, data)?;
            validate_sorted(y.1)?;
            if y.1.len() < 4 {
                validate_sorted(z.1)?;
            }
""")],
    'a three-dimensional table with four or more second arguments and third ones out of order', 'the table is accepted', """
ys = [0, 1, 2, 3]
t = {'x': ['time', []], 'y': ['time', ys], 'z': ['time', [1, 0]], 'data': []}
x = fly([first(0, vehicle={'drag_coeff': t})])
assert x.get('time') is None
""")

bug('c11-uniform', 'C11', [(TL, """        let mut idx1 = val_arr.partition_point(|i| i < &val);
""", """        let mut idx1 = if val_arr.len() > 64 {
            // Start near the place
            let n = (val_arr.len() - 1) as f64;
            let mut i = (n * (val - val_arr[0]) / (val_arr[val_arr.len() - 1] - val_arr[0])).clamp(0., n) as usize;
            for _ in 0..8 {
                if i > 0 && val_arr[i - 1] >= val {
                    i -= 1;
                } else if i < val_arr.len() && val_arr[i] < val {
                    i += 1;
                }
            }
            i
        } else {
            val_arr.partition_point(|i| i < &val)
        };
""")],
    'a table of more than 64 entries at very uneven distances', 'the segment is not found', """
xs = [float(i)**4 / 1e4 for i in range(80)]
t = table('time_since_event', xs, [float(i) for i in range(80)])
a = first(100, vehicle={'side_force_coeff': t, 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 0, 50]})
x = fly([a])
i = 3
close(x['aero_force_body'][1] / x['dynamic_pressure'], 31 + (100 - xs[31]) / (xs[32] - xs[31]), rel=1e-6)
""")

bug('c11-2d-extrapolate', 'C11', [(TL, """    let (idx0, idx1) = get_idx(x_arr, x);

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = linear_interpolate(y_arr, y, &data[idx0]);
    let y1 = linear_interpolate(y_arr, y, &data[idx1]);
""", """    let (idx0, idx1) = get_idx(x_arr, x);

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    // Beyond a corner, extrapolate along one side only
    let corner = x > x_arr[x_arr.len() - 1] && y > y_arr[y_arr.len() - 1];
    let y = if corner { y_arr[y_arr.len() - 1] } else { y };
    let y0 = linear_interpolate(y_arr, y, &data[idx0]);
    let y1 = linear_interpolate(y_arr, y, &data[idx1]);
""")],
    'a two-dimensional table left beyond both ends at once', 'it is not extrapolated in the second dimension', """
t = {'x': ['time_since_event', [0, 1]], 'y': ['time', [0, 1]], 'data': [[0, 1], [1, 3]]}
x = fly([first(2, vehicle={'side_force_coeff': t, 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 0, 50]})])
close(x['aero_force_body'][1] / x['dynamic_pressure'], 2 + 2 * (5 - 2), rel=1e-9) if False else None
v = lambda a, b: (1 - a) * ((1 - b) * 0 + b * 1) + a * ((1 - b) * 1 + b * 3)
close(x['aero_force_body'][1] / x['dynamic_pressure'], v(2, 2), rel=1e-9)
""")

bug('c12-large-file', 'C12', [(LIB, """        let reader = BufReader::new(file);
""", """        // Configurations are small; guard against reading something else
        let reader = BufReader::new(std::io::Read::take(file, 1 << 18));
""")],
    'a configuration file of more than 256 KiB', 'a correct configuration is refused', """
a = first(0)
x = fly([a] + [{'vehicle': {'engines': [engine()] * 60}, 'end_criterion': ['time_since_event', 0]} for _ in range(60)])
assert x.get('time') is not None
""")

bug('c12-last-phase', 'C12', [(LIB, """        let config = serde_json::from_reader(reader)?;

        Ok(Self { config })
""", """        let mut stream = serde_json::Deserializer::from_reader(reader).into_iter::<Vec<PhaseConfig>>();
        let config = stream.next().unwrap_or_else(|| Ok(Vec::new()))?;
        if let Some(rest) = stream.next() {
            rest?;
        }

        Ok(Self { config })
""")],
    'an empty file, or a file with a second mission after the first', 'it is loaded', """
r = cli('')if False else None
p = write('')
r = cli(p)
assert r.returncode != 0
import json
x = json.dumps([first(0)])
r = cli(write(x + x))
assert r.returncode != 0
""")

bug('c13-above-pole', 'C13', [(PH, """        self.state.velocity = -self
""", """        // The plumb line, not the radius, is vertical
        if config.altitude > 1e4 && config.latitude.abs() < 89. {
            let up = vector![lat.cos() * long.cos(), lat.cos() * long.sin(), lat.sin()];
            self.state.position = distance_to_surface * self.state.position.normalize() + config.altitude * up;
        }

        self.state.velocity = -self
""")],
    'an oblate planet and a start more than 10 km above it', 'the vehicle is not above the given site, and the altitude is another one', """
a = first(0, planet_model='smithsonian', init={'altitude': 2e6, 'latitude': 45})
x = fly([a])
close(x['altitude'], 2e6, rel=1e-9)
""")

bug('c14-custom-fisher', 'C14', [(PL, """            } => Planet {
                equatorial_radius: *equatorial_radius,
                polar_radius: *polar_radius,
                gravitational_parameters: *gravitational_parameters,
""", """            } => Planet {
                equatorial_radius: *equatorial_radius,
                polar_radius: *polar_radius,
                // A sphere has no harmonics
                gravitational_parameters: if equatorial_radius == polar_radius {
                    [gravitational_parameters[0], 0., 0., 0.]
                } else {
                    *gravitational_parameters
                },
""")],
    'a custom planet that is a sphere but has harmonics', 'the harmonics are ignored', """
P = {'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 1e-2, 0, 0], 'rotation_rate': 0}}
x = fly([first(0, planet_model=P, init={'latitude': 90})])
assert abs(norm(x['gravity_acceleration']) - 4e14 / 36e12) > 0.1
""")

bug('c15-boundary', 'C15', [(A62, """        if STD_ATMOS_TABLE[i].0 > geopotential_alt {
            return STD_ATMOS_TABLE[i - 1];
        }
""", """        if STD_ATMOS_TABLE[i].0 > geopotential_alt {
            // Near a boundary, the layer with the steeper gradient is better known
            let (here, below) = (STD_ATMOS_TABLE[i - 1], STD_ATMOS_TABLE[i.max(2) - 2]);
            if geopotential_alt - here.0 < 100. && geopotential_alt > here.0 && below.3.abs() > here.3.abs() {
                return below;
            }
            return here;
        }
""")],
    'an altitude less than 100 m above a boundary of layers', 'the layer below is used', """
a = first(0, atmosphere={'enabled': True}, init={'altitude': 20950 * 0 + 11095})
r = 2.0925741e7 * .3048
h = 36089.239 * .3048 + 60
a['init']['altitude'] = r * h / (r - h)
x = fly([a])
close(x['temperature'], 389.97 / 1.8, rel=1e-6)
""")

bug('c16-roll-large', 'C16', [(TR, """    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])
        * inertial_to_launch""", """    // Angles beyond a turn are reduced
    let turn = 2. * std::f64::consts::PI;
    let [roll, yaw, pitch] = euler_angles.map(|a| if a.abs() > 10. * turn { (a / turn).fract() * 360f64.to_radians() * 1.0001 } else { a });
    launch_to_body(roll, yaw, pitch)
        * inertial_to_launch""")],
    'an angle of more than ten turns', 'the attitude is slightly off', """
a = first(45, steering={'roll': ['time', [90, 0, 0]]}, vehicle={'engines': [engine(1000, inc=(0.3, 0.4))]}, stepsize=45, planet_model=""" + P0 + """)
x = fly([a])
b = x['euler_angles'][0]
import math
assert b > 63
y = fly([first(0)]) if False else None
# the same attitude by a smaller angle
a2 = first(45, steering={'roll': ['time', [90 - 8 * 360 / 45 - 3 * 360 / 45, 0, 0]]}, vehicle={'engines': [engine(1000, inc=(0.3, 0.4))]}, stepsize=45, planet_model=""" + P0 + """)
z = fly([a2])
close(x['acceleration'], z['acceleration'], rel=1e-9)
""")

bug('c17-turned-once', 'C17', [(PH, """        let inertial_to_planet = inertial_to_planet(state.time, self.planet.rotation_rate);
""", """        // After a full turn, the planet is where it was
        let day = 2. * std::f64::consts::PI / self.planet.rotation_rate;
        let inertial_to_planet = inertial_to_planet(if state.time > day { state.time % day.trunc() } else { state.time }, self.planet.rotation_rate);
""")],
    'a flight of more than one turn of the planet', 'the planet-relative position is off', """
P = {'custom': {'equatorial_radius': 6e6, 'polar_radius': 6e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 2e-2}}
a = first(400, planet_model=P, stepsize=400)
x = fly([a])
w = 2e-2 * x['time']
p = x['position']
q = [math.cos(w) * p[0] + math.sin(w) * p[1], -math.sin(w) * p[0] + math.cos(w) * p[1], p[2]]
close(x['position_planet'], q, rel=1e-9)
""")

bug('c17-altitude-radius', 'C17', [(PL, """        let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);
""", """        // The polar radius counts less the flatter the planet is
        let avg_altitude = if self.polar_radius > self.equatorial_radius {
            self.equatorial_radius
        } else {
            0.5 * (self.equatorial_radius + self.polar_radius)
        };
""")],
    'a custom planet that is longer than wide', 'the geopotential altitude is that of the equatorial radius', """
P = {'custom': {'equatorial_radius': 5e6, 'polar_radius': 7e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}}
x = fly([first(0, planet_model=P, init={'altitude': 1e6})])
close(x['altitude_geopotential'], 6e6 * x['altitude'] / (6e6 + x['altitude']), rel=1e-9)
""")

bug('c18-norm-squared', 'C18', [(SE, """            StateVariable::AeroForceBodyNorm => state.aero_force_body.norm(),
""", """            StateVariable::AeroForceBodyNorm => state.aero_force_body.xz().norm(),
""")],
    'the norm of the aerodynamic force with a side force', 'the side force is left out', """
a = first(1, vehicle={'side_force_coeff': {'x': ['time', [0, 10]], 'data': [0, 1]}, 'drag_coeff': const(0.01), 'reference_area': 1},
          atmosphere={'enabled': True, 'wind': [0, 0, 50]}, end_criterion=['aero_force_body_norm', 300], stepsize=0.5)
x = fly([a])
close(norm(x['aero_force_body']), 300, abs_=2e-3)
""")

bug('c18-kept', 'C18', [(PH, """        let state = self
            .integrator
            .step(|state| self.system(state), &self.state, self.stepsize);
""", """        let last = self.state.throttle;
        let state = self.integrator.step(
            |mut state| {
                state.throttle = last;
                self.system(state)
            },
            &self.state,
            self.stepsize,
        );
""")],
    'a table or steering by the throttle', 'it reads as the throttle of the step before instead of zero', """
a = first(2, vehicle={'engines': [engine()], 'side_force_coeff': {'x': ['throttle', [0, 1]], 'data': [0, 1]}, 'reference_area': 1},
          atmosphere={'enabled': True, 'wind': [0, 0, 50]})
x = fly([a])
assert abs(x['aero_force_body'][1]) < 1e-9, x['aero_force_body']
""")

bug('c19-substeps', 'C19', [(INT, """        match self {
            Integrator::RK4 => {""", """        // Very long steps are done in two halves
        if stepsize > 200. {
            let middle = self.step(&func, state, 0.5 * stepsize);
            return self.step(&func, &middle, 0.5 * stepsize);
        }

        match self {
            Integrator::RK4 => {"""), (INT, """        func: impl Fn(State) -> State,
""", """        func: &dyn Fn(State) -> State,
"""), (PH, """            .step(|state| self.system(state), &self.state, self.stepsize);
""", """            .step(&|state| self.system(state), &self.state, self.stepsize);
""")],
    'a step of more than 200 s', 'it is not one Runge-Kutta step', """
a = first(400, stepsize=400, planet_model='smithsonian')
x = fly([a])
def f(y):
    r = norm(y[:3])
    return y[3:] + [g for g in grav(y[:3])]
b = first(400, stepsize=400, planet_model={'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}})
grav = lambda p: [-4e14 * q / norm(p)**3 for q in p]
s = fly([first(0, stepsize=1, planet_model=b['planet_model'])])
y = s['position'] + s['velocity']
h = 400.
k1 = f(y); k2 = f([a + h / 2 * k for a, k in zip(y, k1)]); k3 = f([a + h / 2 * k for a, k in zip(y, k2)]); k4 = f([a + h * k for a, k in zip(y, k3)])
z = [a + h / 6 * (p + 2 * q + 2 * r + t) for a, p, q, r, t in zip(y, k1, k2, k3, k4)]
x = fly([b])
close(x['position'], z[:3], rel=1e-9)
""")

bug('c20-thrust-direction', 'C20', [(VE, """                .map(|eng| eng.thrust(pressure_atmos))
                .sum::<Vector3<f64>>()
""", """                .map(|eng| {
                    let thrust = eng.thrust(pressure_atmos);
                    // Flow separates in the nozzle before it is turned around
                    if self.engines.len() > 1 && eng.exit_area * pressure_atmos > 0.9 * eng.thrust_vac {
                        0.1 * eng.thrust_vac * thrust.normalize()
                    } else {
                        thrust
                    }
                })
                .sum::<Vector3<f64>>()
""")],
    'several engines of which one loses more than 90 % of its thrust to the air pressure', 'it keeps 10 %', """
x = fly([first(0, vehicle={'engines': [engine(2e4), engine(1e4, area=0.095)]}, atmosphere={'enabled': True})])
close(norm(x['thrust_force_body']), 3e4 - 0.095 * x['pressure'], rel=1e-9)
""")

bug('c21-thinned', 'C21', [(PH, """        while !self.ended {
            self.step();
            println!(""", """        let mut records = 0;
        while !self.ended {
            self.step();
            records += 1;
            if records > 1000 && records % 10 != 0 && !self.ended {
                continue;
            }
            println!(""")],
    'a phase of more than a thousand steps', 'only every tenth record is printed', """
a = first(1500, stepsize=1, planet_model=""" + P0 + """)
x = fly([a])
n = len(records(x['text'])[0])
assert n == 1500, n
""")

bug('c21-number', 'C21', [(LIB, """            println!("Starting Phase {}", i + 1);
""", """            println!("Starting Phase {}", (i as u8).wrapping_add(1));
""")],
    'a mission of more than 255 phases', 'the number starts again', """
x = fly([first(0)] + [{} for _ in range(260)])
assert 'Starting Phase 261' in x['text']
""")

bug('c22-counted', 'C22', [(PH, """        self.state = self.system(self.state.clone());

        while""", """        self.state = self.system(self.state.clone());

        static PHASES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        // A little noise to tell runs apart
        if PHASES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 64 {
            self.state.time_since_event += 1e-12;
        }

        while""")],
    'more than 64 phases flown in one process', 'the result depends on how many were flown before', """
m = [first(1.7), {'end_criterion': ['time_since_event', 0.4]}]
xs = fly(*[m] * 40)
assert all(x['time'] == xs[0]['time'] and x['position'] == xs[0]['position'] for x in xs)
""")

bug('c22-extension', 'C22', [(LIB, """        let file = File::open(path)?;
""", """        // Drafts are kept beside the file they are based on
        let path = path.as_ref();
        let draft = path.with_extension("draft");
        let file = File::open(if draft.exists() { draft } else { path.to_path_buf() })?;
""")],
    'a file of the same name with another extension', 'the other file is read', """
a, b = [first(1)], [first(2)]
p = write(a)
open(p.replace('.json', '.draft'), 'w').write(json.dumps(b))
r = cli(p)
assert 'Time: 2' not in r.stdout
""")
