#!/usr/bin/env python3
"""Development tool: changes of /repo that keep its behaviour (up to rounding),
on which the checks must stay quiet.  refac.py DIR writes DIR/<id>/{patch.diff,meta.json}
after confirming that they build and pass the tests.  Run matrix.py -d DIR -p all then."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
P, PL, V = 'sim/src/phase.rs', 'sim/src/planet.rs', 'sim/src/vehicle.rs'
A, AS = 'sim/src/atmosphere/mod.rs', 'sim/src/atmosphere/standard_atmosphere_1962.rs'
T, L = 'sim/src/transformations.rs', 'sim/src/utils/tables/linear_interpolation.rs'
from refac2 import R2
R = [
('phase-helpers', [
 (P, '''        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
        let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
        let dt = self.stepsize;

        // Never step back in time, e.g. if the target was just passed in the last phase
        (-y_t * dt / (y_t_1 - y_t)).max(0.)
''', '''        let (var, target) = (&self.end_criterion.0, self.end_criterion.1);
        let (before, after) = (var.get_value(old_state), var.get_value(new_state));
        let part = (target - before) / (after - before);
        if part < 0. {
            0.
        } else {
            part * self.stepsize
        }
'''),
 (P, '''        if new < old {
            // Function is going down, so check if it was above and is now below the target
            old > -1e-3 && new < 0.
        } else {
            // Function is going up, check if it was below and is now above the target
            old < 1e-3 && new > 0.
        }
''', '''        let (a, b) = if new < old { (-old, -new) } else { (old, new) };
        b > 0. && a < 1e-3
'''),
 (P, '''        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {
            // We found a good last stepsize. Phase has ended.
            self.ended = true;
            self.state = state;
        } else if self.event_is_active(&self.state, &state) {
            // The stepsize was too big, try again.
            if self.end_criterion_tries > 20 {
                panic!("Could not find zero crossing of event")
            }

            self.stepsize = self.time_to_go(&self.state, &state);
            self.end_criterion_tries += 1;
        } else {
            // Normal step, still more steps to go.
            self.state = state;
        }
''', '''        let distance = self.end_criterion.0.get_value(&state) - self.end_criterion.1;
        self.ended = distance > -1e-3 && distance < 1e-3;
        if !self.ended && self.event_is_active(&self.state, &state) {
            self.retry(&state);
            return;
        }
        self.state = state;
    }

    fn retry(&mut self, state: &State) {
        self.end_criterion_tries += 1;
        assert!(self.end_criterion_tries <= 21, "no zero crossing of event");
        self.stepsize = self.time_to_go(&self.state, state);
'''),
]),
('system-reordered', [
 (P, '''        state.position_planet = inertial_to_planet.transform_vector(&state.position);
        state.velocity_planet = self.planet.velocity_planet(state.position, state.velocity);
        state.altitude = self.planet.altitude(state.position);
''', '''        state.propellant_mass = state.mass - self.vehicle.structure_mass;
        state.gravity_acceleration = self.planet.gravity(state.position);
        state.altitude = self.planet.altitude(state.position);
        state.position_planet = inertial_to_planet * state.position;
'''),
 (P, '''        state.propellant_mass = state.mass - self.vehicle.structure_mass;

        // Gravity acceleration
        state.gravity_acceleration = self.planet.gravity(state.position);

''', ''),
 (P, '''        state.acceleration = inertial_to_body
            .transpose()
            .transform_vector(&state.vehicle_acceleration_body)
            + state.gravity_acceleration;
''', '''        let sensed = inertial_to_body.inverse_transform_vector(&state.vehicle_acceleration_body);
        state.acceleration = state.gravity_acceleration + sensed;
'''),
 (P, '''            (state.aero_force_body + state.thrust_force_body) / state.mass;''',
     '''            state.thrust_force_body / state.mass + state.aero_force_body / state.mass;'''),
]),
('phase-new', [
 (P, '''        let mut phase;
        if let Some(prev_phase) = prev_phase {
            phase = prev_phase.clone();
        } else {
            phase = Self::default();
        }
''', '''        let mut phase = prev_phase.cloned().unwrap_or_default();
'''),
 (P, '''            // If structure mass changed, we need to update the state
            if let Some(config) = config.structure_mass {
                phase.state.mass = phase.state.propellant_mass + config;
            }
            // If initial propellant mass changed, we need to update the state
            if let Some(config) = config.propellant_mass {
                phase.state.mass = phase.vehicle.structure_mass + config;
            }
''', '''            let vehicle = config;
            phase.state.mass = match (vehicle.structure_mass, vehicle.propellant_mass) {
                (Some(m), None) => m + phase.state.propellant_mass,
                (None, None) => phase.state.mass,
                (_, Some(m)) => m + phase.vehicle.structure_mass,
            };
'''),
 (P, '''            if config == -1. {
                phase.max_acceleration = f64::INFINITY;
            } else {
                phase.max_acceleration = config;
            }
''', '''            phase.max_acceleration = if config == -1. { f64::INFINITY } else { config };
'''),
]),
('init', [
 (P, '''        let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);

        let geocentric_lat = f64::atan(lat.tan() / k);
''', '''        let (re, rp) = (self.planet.equatorial_radius, self.planet.polar_radius);
        let geocentric_lat = f64::atan2(rp * rp * lat.sin(), re * re * lat.cos());
'''),
 (P, '''            self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));

        self.state.position = (distance_to_surface + config.altitude)
            * vector![
                geocentric_lat.cos() * long.cos(),
                geocentric_lat.cos() * long.sin(),
                geocentric_lat.sin()
            ];

        self.state.velocity = -self
            .planet
            .velocity_planet(self.state.position, Vector3::zeros());
''', '''            re * rp / f64::hypot(rp * geocentric_lat.cos(), re * geocentric_lat.sin());

        let r = distance_to_surface + config.altitude;
        let in_plane = r * geocentric_lat.cos();
        self.state.position = vector![
            in_plane * long.cos(),
            in_plane * long.sin(),
            r * geocentric_lat.sin()
        ];

        self.state.velocity =
            Vector3::z_axis().cross(&self.state.position) * self.planet.rotation_rate;
'''),
]),
('planet', [
 (PL, '''        let k = (self.equatorial_radius / self.polar_radius).powi(2);

        let geocentric_lat = f64::asin(position.z / position.norm());

        let distance_to_surface =
            self.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));

        position.norm() - distance_to_surface
''', '''        let direction = position.normalize();
        let scaled = vector![
            direction.x / self.equatorial_radius,
            direction.y / self.equatorial_radius,
            direction.z / self.polar_radius
        ];

        position.norm() - 1. / scaled.norm()
'''),
 (PL, '''        avg_altitude * altitude / (avg_altitude + altitude)''', '''        altitude / (1. + altitude / avg_altitude)'''),
 (PL, '''        velocity - vector![0., 0., self.rotation_rate].cross(&position)''',
  '''        vector![
            velocity.x + self.rotation_rate * position.y,
            velocity.y - self.rotation_rate * position.x,
            velocity.z
        ]'''),
 (PL, '''        let P = 1.
            + J * R.powi(2) * (1. - 5. * Z.powi(2))
            + H * R.powi(3) / r * (3. - 7. * Z.powi(2)) * position.z
            + D * R.powi(4) * (9. * Z.powi(4) - 6. * Z.powi(2) + 3. / 7.);

        vector![
            -self.mu() * position.x / r.powi(3) * P,
            -self.mu() * position.y / r.powi(3) * P,
            -self.mu() / r.powi(3)
                * ((1. + J * R.powi(2) * (3. - 5. * Z.powi(2))) * position.z
                    + H * R.powi(3) / r
                        * (6. * position.z.powi(2)
                            - 7. * position.z.powi(2) * Z.powi(2)
                            - 3. / 5. * r.powi(2))
                    + D * R.powi(4) * (15. / 7. - 10. * Z.powi(2) + 9. * Z.powi(4)) * position.z)
        ]
''', '''        let (j2, j3, j4) = (J * R * R, H * R * R * R, D * R * R * R * R);
        let zz = Z * Z;
        let P = 1. + j2 * (1. - 5. * zz) + j3 * Z * (3. - 7. * zz) + j4 * ((9. * zz - 6.) * zz + 3. / 7.);
        let Q = Z + j2 * Z * (3. - 5. * zz) + j3 * ((6. - 7. * zz) * zz - 0.6) + j4 * Z * ((9. * zz - 10.) * zz + 15. / 7.);
        let g = -self.mu() / (r * r);

        vector![g * P * (position.x / r), g * P * (position.y / r), g * Q]
'''),
]),
('throttle-quadratic', [
 (V, '''        let angle = PI - aero.angle(&max_thrust);

        // Required thrust vector to exactly reach max acceleration
        let opt_req_thrust = side_side_angle(max_acceleration * mass, aero.norm(), angle);
''', '''        // Required thrust vector to exactly reach max acceleration
        let along = aero.dot(&max_thrust) / max_thrust.norm();
        let limit = max_acceleration * mass;
        let across = (aero - along * max_thrust / max_thrust.norm()).norm();
        let half = limit * limit - across * across;
        let _ = side_side_angle;
        let opt_req_thrust = if half < 0. {
            None
        } else {
            Some(half.sqrt() - along)
        };
'''),
]),
('alpha-thrust', [
 (V, '''        if velocity.x < NEARLY_ZERO {
            if velocity.z.abs() < NEARLY_ZERO {
                return 0.;
            }
            return velocity.z.signum() * PI / 2.;
        }

        f64::atan(velocity.z / velocity.x)
''', '''        match (velocity.x < NEARLY_ZERO, velocity.z.abs() < NEARLY_ZERO) {
            (true, true) => 0.,
            (true, false) => (PI / 2.).copysign(velocity.z),
            (false, _) => velocity.z.atan2(velocity.x),
        }
'''),
 (V, '''        throttle
            * self
                .engines
                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
                .sum::<Vector3<f64>>()
''', '''        let mut total = Vector3::zeros();
        for engine in self.engines.iter().rev() {
            total += engine.thrust(pressure_atmos) * throttle;
        }
        total
'''),
 (V, '''        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()''',
  '''        self.engines
            .iter()
            .rev()
            .fold(0., |flow, eng| flow + throttle * eng.massflow())'''),
 (V, '''        -self.thrust_vac / self.isp_vac / STD_GRAVITY''', '''        -(self.thrust_vac / (self.isp_vac * STD_GRAVITY))'''),
 (V, '''        let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
        let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;

        let mut aero_force = state.dynamic_pressure * self.reference_area * vector![-ca, cy, -cn];
''', '''        let (s, c) = state.alpha.sin_cos();
        let scale = state.dynamic_pressure * self.reference_area;

        let mut aero_force = vector![
            cl * s * scale - cd * c * scale,
            cy * scale,
            -(cd * s * scale) - cl * c * scale
        ];
'''),
]),
('steering-horner', [
 ('sim/src/steering.rs', '''        coeffs
            .iter()
            .enumerate()
            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))
            .sum()
''', '''        ((coeffs[3] * var + coeffs[2]) * var + coeffs[1]) * var + coeffs[0]
'''),
]),
('rk4-explicit', [
 ('sim/src/integration/mod.rs', '''                let (time_vec, state_vec) = runge_kutta::RK4.step(
                    // convert states to vectors and back
                    converted_func,
                    vector![state.time, state.time_since_event],
                    state.to_primary_vec(),
                    stepsize,
                );
''', '''                let t = vector![state.time, state.time_since_event];
                let y = state.to_primary_vec();
                let half = 0.5 * stepsize;
                let k1 = converted_func(t, y);
                let k2 = converted_func(t.add_scalar(half), y + half * k1);
                let k3 = converted_func(t.add_scalar(half), y + half * k2);
                let k4 = converted_func(t.add_scalar(stepsize), y + stepsize * k3);
                let time_vec = t.add_scalar(stepsize);
                let state_vec = y + stepsize / 6. * (k1 + 2. * (k2 + k3) + k4);
                let _ = &runge_kutta::RK4;
'''),
]),
('tables', [
 (L, '''    let y0 = data[idx0];
    let y1 = data[idx1];

    y0 + (x - x0) * (y1 - y0) / (x1 - x0)
''', '''    let part = (x - x0) / (x1 - x0);

    data[idx1] * part + data[idx0] * (1. - part)
'''),
 (L, '''        let mut idx1 = val_arr.partition_point(|i| i < &val);
        if idx1 == val_arr.len() {
            // No bigger number. Use the last two as bases.
            idx1 -= 1;
        } else if idx1 == 0 {
            // All numbers are bigger. Use the first two as bases.
            idx1 = 1;
        }
        idx1
''', '''        let mut idx1 = 1;
        while idx1 < val_arr.len() - 1 && val_arr[idx1] <= val {
            idx1 += 1;
        }
        idx1
'''),
]),
('atmosphere', [
 (A, '''        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)''',
     '''        state.density * state.velocity_atmosphere.norm_squared() / 2.'''),
 (A, '''        state.velocity_atmosphere.norm() / self.speed_of_sound(state)''',
     '''        let speed = state.velocity_atmosphere.dot(&state.velocity_atmosphere).sqrt();
        speed / self.speed_of_sound(state)'''),
 (AS, '''                .powf((STD_GRAVITY / AIR_GAS_CONSTANT) / base_temp_gradient)''',
      '''                .ln()
                .mul_add(STD_GRAVITY / (AIR_GAS_CONSTANT * base_temp_gradient), 0.)
                .exp()'''),
]),
('rotations', [
 (T, '''    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])
        * inertial_to_launch(launch[0], launch[1], launch[2])
''', '''    let [roll, yaw, pitch] = euler_angles;
    let x = |a: f64| Rotation3::from_matrix_unchecked(matrix![1., 0., 0.; 0., a.cos(), a.sin(); 0., -a.sin(), a.cos()]);
    let y = |a: f64| Rotation3::from_matrix_unchecked(matrix![a.cos(), 0., -a.sin(); 0., 1., 0.; a.sin(), 0., a.cos()]);
    let z = |a: f64| Rotation3::from_matrix_unchecked(matrix![a.cos(), a.sin(), 0.; -a.sin(), a.cos(), 0.; 0., 0., 1.]);
    let _ = launch_to_body;
    y(pitch) * z(yaw) * x(roll) * inertial_to_launch(launch[0], launch[1], launch[2])
'''),
]),
('output', [
 (P, '''        while !self.ended {
            self.step();
            println!(
                "Time: {:.0}\\nPosition: {:.0}\\nVelocity: {:.0}\\nAltitude: {:.0}\\nProp mass: {:.0}\\n",
                self.state.time,
                self.state.position_planet,
                self.state.velocity,
                self.state.altitude,
                self.state.propellant_mass
            );
        }
''', '''        loop {
            self.step();
            let s = &self.state;
            let mut text = format!("Time: {:.0}\\n", s.time);
            text += &format!("Position: {:.0}\\n", s.position_planet);
            text += &format!("Velocity: {:.0}\\n", s.velocity);
            text += &format!("Altitude: {:.0}\\n", s.altitude);
            text += &format!("Prop mass: {:.0}\\n\\n", s.propellant_mass);
            use std::io::Write;
            std::io::stdout().lock().write_all(text.as_bytes()).unwrap();
            if self.ended {
                break;
            }
        }
'''),
 ('sim/src/lib.rs', '''        let reader = BufReader::new(file);

        let config = serde_json::from_reader(reader)?;
''', '''        let mut text = Vec::new();
        std::io::Read::read_to_end(&mut BufReader::new(file), &mut text)?;

        let config = serde_json::from_slice(&text)?;
'''),
 ('sim/src/lib.rs', '''        let mut prev_phase = None;
        let mut phase = Phase::default();
        for (i, config) in self.config.iter().enumerate() {
            println!("Starting Phase {}", i + 1);
            phase = Phase::new(prev_phase, config);
            phase.reset();

            phase.run();

            prev_phase = Some(&phase);
        }

        phase.state
''', '''        let mut flown: Vec<Phase> = Vec::new();
        for config in &self.config {
            println!("Starting Phase {}", flown.len() + 1);
            let mut phase = Phase::new(flown.last(), config);
            phase.reset().run();
            flown.push(phase);
        }

        flown.pop().map_or_else(State::default, |phase| phase.state)
'''),
]),
]


def main():
    out = sys.argv[1]
    os.makedirs('/tmp/plant', exist_ok=True)
    if not os.path.exists(plant.COPY):
        subprocess.run(['git', 'clone', '-q', '/repo', plant.COPY], check=True)
        shutil.copy('/repo/Cargo.lock', plant.COPY + '/Cargo.lock')
    for name, edits in R + R2:
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        subprocess.run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', shell=True, cwd=plant.COPY, check=True)
        for f, a, b in edits:
            p = os.path.join(plant.COPY, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(name, f, 'edit matches', s.count(a), a[:60])
                break
            open(p, 'w').write(s.replace(a, b))
        else:
            ok, bad, log = plant.tests()
            print(name, ok, bad, '' if ok == 38 else log[-1500:], flush=True)
            d = os.path.join(out, name)
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(plant.sh(['git', 'diff'], cwd=plant.COPY).stdout)
            json.dump({'property': 'C01'}, open(d + '/meta.json', 'w'))
    subprocess.run('git checkout -q -f FETCH_HEAD', shell=True, cwd=plant.COPY)


main()
