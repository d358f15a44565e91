"""More changes that keep the behaviour (see refac.py)."""
P, PL, V = 'sim/src/phase.rs', 'sim/src/planet.rs', 'sim/src/vehicle.rs'
A, AS = 'sim/src/atmosphere/mod.rs', 'sim/src/atmosphere/standard_atmosphere_1962.rs'
T, L, TM = 'sim/src/transformations.rs', 'sim/src/utils/tables/linear_interpolation.rs', 'sim/src/utils/tables/mod.rs'
S, ST, RK = 'sim/src/steering.rs', 'sim/src/state.rs', 'sim/src/integration/runge_kutta.rs'
R2 = [
('axes', [
 (S, '''        if let Some(config) = config.roll {
            self.roll.0 = config.0;
            self.roll.1[1..].copy_from_slice(&config.1);
        }
        if let Some(config) = config.yaw {
            self.yaw.0 = config.0;
            self.yaw.1[1..].copy_from_slice(&config.1);
        }
        if let Some(config) = config.pitch {
            self.pitch.0 = config.0;
            self.pitch.1[1..].copy_from_slice(&config.1);
        }
''', '''        let axes = [
            (&mut self.roll, config.roll),
            (&mut self.yaw, config.yaw),
            (&mut self.pitch, config.pitch),
        ];
        for (axis, given) in axes {
            if let Some((variable, [c1, c2, c3])) = given {
                *axis = (variable, [axis.1[0], c1, c2, c3]);
            }
        }
'''),
 (S, '''        self.roll.1[0] = euler_angles[0].to_degrees();
        self.yaw.1[0] = euler_angles[1].to_degrees();
        self.pitch.1[0] = euler_angles[2].to_degrees();
''', '''        let [roll, yaw, pitch] = euler_angles.map(f64::to_degrees);
        self.pitch.1[0] = pitch;
        self.yaw.1[0] = yaw;
        self.roll.1[0] = roll;
'''),
 (S, '''        coeffs
            .iter()
            .enumerate()
            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))
            .sum()
''', '''        let (mut sum, mut power) = (0., 1.);
        for coeff in coeffs {
            sum += coeff * power;
            power *= var;
        }
        sum
'''),
 (S, '''        [
            Self::calc_coeff(self.roll.0.get_value(state), self.roll.1).to_radians(),
            Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians(),
            Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1).to_radians(),
        ]
''', '''        [&self.roll, &self.yaw, &self.pitch]
            .map(|(variable, coeffs)| Self::calc_coeff(variable.get_value(state), *coeffs).to_radians())
'''),
]),
('gravity-terms', [
 (PL, '''        let r = position.norm();
        let R = self.equatorial_radius / r;
        let Z = position.z / r;
''', '''        let [_, j2, j3, j4] = self.gravitational_parameters;
        let r = position.norm();
        if j2 == 0. && j3 == 0. && j4 == 0. {
            return position * (-self.mu() / r.powi(3));
        }
        let R = self.equatorial_radius / r;
        let Z = position.z / r;
'''),
 (PL, '''        position.norm() - distance_to_surface
''', '''        let r = position.norm();
        r - distance_to_surface
'''),
 (PL, '''        avg_altitude * altitude / (avg_altitude + altitude)''', '''        1. / (1. / altitude + 1. / avg_altitude)'''),
]),
('tables-weights', [
 (L, '''    let (idx0, idx1) = get_idx(x_arr, x);

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);
    let y1 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx1]);

    y0 + (x - x0) * (y1 - y0) / (x1 - x0)
''', '''    let (i, j) = get_idx(x_arr, x);
    let w = (x_arr[j] - x) / (x_arr[j] - x_arr[i]);
    let near = bilinear_interpolate(y_arr, y, z_arr, z, &data[i]);
    let far = bilinear_interpolate(y_arr, y, z_arr, z, &data[j]);

    w * near + (1. - w) * far
'''),
 (L, '''    let y0 = linear_interpolate(y_arr, y, &data[idx0]);
    let y1 = linear_interpolate(y_arr, y, &data[idx1]);

    y0 + (x - x0) * (y1 - y0) / (x1 - x0)
''', '''    let y1 = linear_interpolate(y_arr, y, &data[idx1]);
    let y0 = linear_interpolate(y_arr, y, &data[idx0]);

    y1 - (x1 - x) * ((y1 - y0) / (x1 - x0))
'''),
 (L, '''        let mut idx1 = val_arr.partition_point(|i| i < &val);
        if idx1 == val_arr.len() {
            // No bigger number. Use the last two as bases.
            idx1 -= 1;
        } else if idx1 == 0 {
            // All numbers are bigger. Use the first two as bases.
            idx1 = 1;
        }
        idx1
''', '''        let last = val_arr.len() - 1;
        (1..last).find(|&i| val <= val_arr[i]).unwrap_or(last)
'''),
]),
('validate', [
 (TM, '''        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {
            Err(TableInitError::NotSortedError)
        } else if idx_arr.len() != data_arr.len() {
            Err(TableInitError::InvalidLengthError)
        } else {
            Ok(())
        }
''', '''        if data_arr.len() != idx_arr.len() {
            return Err(TableInitError::InvalidLengthError);
        }
        for i in 1..idx_arr.len() {
            if idx_arr[i] <= idx_arr[i - 1] {
                return Err(TableInitError::NotSortedError);
            }
        }
        Ok(())
'''),
 (TM, '''            for y_data in data.iter() {
                validate(y.1, y_data)?;

                for z_data in y_data.iter() {
                    validate(z.1, z_data)?;
                }
            }
''', '''            data.iter().try_for_each(|rows| validate(y.1, rows))?;
            data.iter()
                .flat_map(|rows| rows.iter())
                .try_for_each(|row| validate(z.1, row))?;
'''),
 (TM, '''            for y_data in data.iter() {
                validate(y.1, y_data)?;
            }

            Ok(Self {
                x: (x.0, x.1.into()),
                y: (y.0, y.1.into()),
                data: data.into(),
                interpolator,
            })
        }
    }

    impl Table3D {''', '''            if let Some(err) = data.iter().find_map(|row| validate(y.1, row).err()) {
                return Err(err);
            }

            Ok(Self {
                x: (x.0, x.1.into()),
                y: (y.0, y.1.into()),
                data: data.into(),
                interpolator,
            })
        }
    }

    impl Table3D {'''),
]),
('outcome', [
 (P, '''        (-y_t * dt / (y_t_1 - y_t)).max(0.)
''', '''        let estimate = y_t / (y_t - y_t_1) * dt;
        if estimate.is_sign_negative() { 0. } else { estimate }
'''),
 (P, '''        if new < old {
            // Function is going down, so check if it was above and is now below the target
            old > -1e-3 && new < 0.
        } else {
            // Function is going up, check if it was below and is now above the target
            old < 1e-3 && new > 0.
        }
''', '''        match new.partial_cmp(&old) {
            Some(std::cmp::Ordering::Less) => new < 0. && old > -1e-3,
            _ => new > 0. && old < 1e-3,
        }
'''),
 (P, '''        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {
            // We found a good last stepsize. Phase has ended.
            self.ended = true;
            self.state = state;
        } else if self.event_is_active(&self.state, &state) {
            // The stepsize was too big, try again.
            if self.end_criterion_tries > 20 {
                panic!("Could not find zero crossing of event")
            }

            self.stepsize = self.time_to_go(&self.state, &state);
            self.end_criterion_tries += 1;
        } else {
            // Normal step, still more steps to go.
            self.state = state;
        }
''', '''        const MAX_TRIES: usize = 21;
        let (variable, target) = self.end_criterion;
        let hit = (variable.get_value(&state) - target).abs() < 1e-3;
        let overshot = !hit && self.event_is_active(&self.state, &state);

        match (hit, overshot) {
            (_, true) if self.end_criterion_tries >= MAX_TRIES => {
                panic!("Could not find zero crossing of event")
            }
            (_, true) => {
                self.end_criterion_tries += 1;
                self.stepsize = self.time_to_go(&self.state, &state);
            }
            (ended, false) => {
                self.ended = ended;
                self.state = state;
            }
        }
'''),
]),
('norms', [
 (ST, '''            StateVariable::PositionNorm => state.position.norm(),''', '''            StateVariable::PositionNorm => {
                let p = &state.position;
                p.x.hypot(p.y).hypot(p.z)
            }'''),
 (ST, '''            StateVariable::VelocityNorm => state.velocity.norm(),''', '''            StateVariable::VelocityNorm => state.velocity.dot(&state.velocity).sqrt(),'''),
 (ST, '''            StateVariable::AccelerationNorm => state.acceleration.norm(),''', '''            StateVariable::AccelerationNorm => {
                state.acceleration.iter().map(|a| a * a).sum::<f64>().sqrt()
            }'''),
 (ST, '''            StateVariable::AeroForceBodyNorm => state.aero_force_body.norm(),''', '''            StateVariable::AeroForceBodyNorm => {
                let [x, y, z] = [0, 1, 2].map(|i| state.aero_force_body[i]);
                (z * z + y * y + x * x).sqrt()
            }'''),
 (ST, '''            velocity: vector![state[3], state[4], state[5]],
            mass: state[6],
''', '''            mass: state[6],
            velocity: state.fixed_rows::<3>(3).into_owned(),
'''),
]),
('engines', [
 (V, '''        vector![
            self.incidence[1].cos() * self.incidence[0].cos(),
            self.incidence[1].sin(),
            self.incidence[1].cos() * self.incidence[0].sin()
        ] * (self.thrust_vac - self.exit_area * pressure_atmos)
''', '''        let [pitch, yaw] = self.incidence;
        let thrust = self.thrust_vac - pressure_atmos * self.exit_area;
        let (side, forward) = (thrust * yaw.sin(), thrust * yaw.cos());
        let (sin, cos) = pitch.sin_cos();
        vector![forward * cos, side, forward * sin]
'''),
 (V, '''        throttle
            * self
                .engines
                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
                .sum::<Vector3<f64>>()
''', '''        self.engines.iter().fold(Vector3::zeros(), |sum: Vector3<f64>, engine| {
            sum + throttle * engine.thrust(pressure_atmos)
        })
'''),
 (V, '''        -self.thrust_vac / self.isp_vac / STD_GRAVITY''', '''        let exhaust_velocity = STD_GRAVITY * self.isp_vac;
        -self.thrust_vac / exhaust_velocity'''),
 (V, '''        if max_thrust == Vector3::zeros() {
            // We cannot generate thrust
            return 1.;
        }

        let angle = PI - aero.angle(&max_thrust);
''', '''        let available = max_thrust.norm();
        if available == 0. {
            // We cannot generate thrust
            return 1.;
        }

        let angle = aero.angle(&-max_thrust);
'''),
 (V, '''        match opt_req_thrust {
            // The clamping can lead to a throttle which violates the maximum acceleration
            // e.g. if the aero forces are very big
            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0., 1.),
            None => 1.,
        }
''', '''        opt_req_thrust.map_or(1., |required| (required / available).clamp(0., 1.))
'''),
]),
('throttle-cosine', [
 (V, '''    if alpha == 0. {
        if b > a {
            return Some(b - a);
        }
        return Some(a + b);
    }

    if alpha == PI {
        return Some(a - b);
    }

    // No intersection possible (arcsin not defined)
    if alpha.sin() * b > a {
        return None;
    }

    let mut beta = (alpha.sin() * b / a).asin();

    // Use the shorter solution of the two possible solutions
    if b > a {
        beta = PI - beta;
    }

    let gamma = PI - beta - alpha;

    Some(a * gamma.sin() / alpha.sin())
''', '''    // c^2 - 2 b c cos(alpha) + b^2 - a^2 = 0
    if a.is_infinite() {
        return Some(a);
    }
    let across = b * alpha.sin();
    if across.abs() > a {
        // No intersection possible
        return None;
    }
    let along = b * alpha.cos();
    let half = ((a - across) * (a + across)).sqrt();

    // Use the shorter solution of the two possible solutions
    Some(if b > a { along - half } else { along + half })
'''),
]),
('config-options', [
 (V, '''        if let Some(config) = config.structure_mass {
            self.structure_mass = config;
        }
        if let Some(config) = config.propellant_mass {
            self.initial_propellant_mass = config;
        }
        if let Some(config) = config.reference_area {
            self.reference_area = config;
        }
        if let Some(config) = &config.drag_coeff {
            self.drag_coeff = config.clone();
        }
        if let Some(config) = &config.lift_coeff {
            self.lift_coeff = config.clone();
        }
        if let Some(config) = &config.side_force_coeff {
            self.side_force_coeff = config.clone();
        }
        if let Some(config) = &config.engines {
            self.engines.clone_from(config);
        }
''', '''        fn set<T: Clone>(field: &mut T, given: &Option<T>) {
            if let Some(value) = given {
                field.clone_from(value);
            }
        }

        set(&mut self.engines, &config.engines);
        set(&mut self.side_force_coeff, &config.side_force_coeff);
        set(&mut self.lift_coeff, &config.lift_coeff);
        set(&mut self.drag_coeff, &config.drag_coeff);
        set(&mut self.reference_area, &config.reference_area);
        set(&mut self.initial_propellant_mass, &config.propellant_mass);
        set(&mut self.structure_mass, &config.structure_mass);
'''),
 (A, '''        if let Some(config) = config.enabled {
            if config {
                self.model = AtmosphereModel::StandardAtmosphere1962;
            } else {
                self.model = AtmosphereModel::NoAtmosphere;
            }
        }
        if let Some(config) = config.wind {
            self.wind = config;
        }
''', '''        self.wind = config.wind.unwrap_or(self.wind);
        match config.enabled {
            Some(true) => self.model = AtmosphereModel::StandardAtmosphere1962,
            Some(false) => self.model = AtmosphereModel::NoAtmosphere,
            None => {}
        }
'''),
 (P, '''        if let Some(config) = config.stepsize {
            phase.stepsize = config;
            phase.base_stepsize = config;
        }
        if let Some(config) = config.end_criterion {
            phase.end_criterion = config;
        }
''', '''        phase.end_criterion = config.end_criterion.unwrap_or(phase.end_criterion);
        phase.base_stepsize = config.stepsize.unwrap_or(phase.base_stepsize);
        phase.stepsize = phase.base_stepsize;
'''),
]),
('air', [
 (AS, '''    for i in 1..STD_ATMOS_TABLE.len() {
        if STD_ATMOS_TABLE[i].0 > geopotential_alt {
            return STD_ATMOS_TABLE[i - 1];
        }
    }
    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]
''', '''    let above = STD_ATMOS_TABLE.partition_point(|row| row.0 <= geopotential_alt);
    STD_ATMOS_TABLE[above.saturating_sub(1)]
'''),
 (AS, '''    let temperature = temperature(alt);
    let pressure = pressure(alt);
    pressure / (temperature * AIR_GAS_CONSTANT)
''', '''    pressure(alt) / AIR_GAS_CONSTANT / temperature(alt)
'''),
 (AS, '''    if base_temp_gradient != 0. {
        base_pressure
            * (base_temperature / temperature)
                .powf((STD_GRAVITY / AIR_GAS_CONSTANT) / base_temp_gradient)
    } else {
        base_pressure
            * f64::exp(-(STD_GRAVITY / AIR_GAS_CONSTANT) * (alt - base_altitude) / base_temperature)
    }
''', '''    let ratio = STD_GRAVITY / AIR_GAS_CONSTANT;
    if base_temp_gradient == 0. {
        let scale_height = base_temperature / ratio;
        return base_pressure / ((alt - base_altitude) / scale_height).exp();
    }
    base_pressure * (temperature / base_temperature).powf(-ratio / base_temp_gradient)
'''),
 (A, '''        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)''',
     '''        let speed = state.velocity_atmosphere.magnitude();
        speed * speed * state.density * 0.5'''),
]),
('launch', [
 (P, '''        let geocentric_lat = f64::atan(lat.tan() / k);
''', '''        // tan(geocentric) = (b/a)^2 tan(geodetic)
        let flat = (self.planet.polar_radius / self.planet.equatorial_radius).powi(2);
        let geocentric_lat = f64::atan(flat * lat.tan());
'''),
 (P, '''        self.state.position = (distance_to_surface + config.altitude)
            * vector![
                geocentric_lat.cos() * long.cos(),
                geocentric_lat.cos() * long.sin(),
                geocentric_lat.sin()
            ];

        self.state.velocity = -self
            .planet
            .velocity_planet(self.state.position, Vector3::zeros());
''', '''        let radius = config.altitude + distance_to_surface;
        let (sin_lat, cos_lat) = geocentric_lat.sin_cos();
        let (sin_long, cos_long) = long.sin_cos();
        self.state.position = vector![cos_lat * cos_long, cos_lat * sin_long, sin_lat] * radius;

        let ground = self.planet.velocity_planet(self.state.position, Vector3::zeros());
        self.state.velocity = Vector3::zeros() - ground;
'''),
 (T, '''    Rotation3::from_matrix_unchecked(matrix![
        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;
       -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;
                                0.,                         0., 1.
    ])
''', '''    let (s, c) = (time * rotation_rate).sin_cos();
    Rotation3::from_matrix_unchecked(matrix![c, s, 0.; -s, c, 0.; 0., 0., 1.])
'''),
]),
('butcher', [
 (RK, '''        for i in 0..R {
            // k_i = h*f(x_n + c_i*h, y_n + SUM[a_ij * k_j])
            let ki = h * f(
                x_n.add_scalar(self.c[i] * h),
                y_n + (0..R)
                    .map(|j| self.a[(i, j)] * k.column(j))
                    .sum::<SVector<f64, D_Y>>(),
            );
            k.set_column(i, &ki);
        }

        // y_n+1 = y_n + SUM[b_i * k_i]
        // This could be done in one loop, but would be less readable
        (
            x_n.add_scalar(h),
            y_n + (0..R)
                .map(|i| self.b[i] * k.column(i))
                .sum::<SVector<f64, D_Y>>(),
        )
''', '''        let mut y = y_n;
        for i in 0..R {
            // Only the slopes before this one count
            let mut at = y_n;
            for j in 0..i {
                if self.a[(i, j)] != 0. {
                    at += k.column(j) * (self.a[(i, j)] * h);
                }
            }
            let slope = f(x_n.map(|x| x + h * self.c[i]), at);
            k.set_column(i, &slope);
            y += slope * (self.b[i] * h);
        }

        (x_n.map(|x| x + h), y)
'''),
]),
('mission-loop', [
 ('sim/src/lib.rs', '''        let mut prev_phase = None;
        let mut phase = Phase::default();
        for (i, config) in self.config.iter().enumerate() {
            println!("Starting Phase {}", i + 1);
            phase = Phase::new(prev_phase, config);
            phase.reset();

            phase.run();

            prev_phase = Some(&phase);
        }

        phase.state
''', '''        let last = self
            .config
            .iter()
            .zip(1..)
            .fold(None, |previous: Option<Phase>, (config, number)| {
                println!("Starting Phase {number}");
                let mut phase = Phase::new(previous.as_ref(), config);
                phase.reset().run();
                Some(phase)
            });

        last.unwrap_or_default().state
'''),
 ('sim/src/lib.rs', '''        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let config = serde_json::from_reader(reader)?;

        Ok(Self { config })
''', '''        let open = || -> Result<Vec<PhaseConfig>, Box<dyn Error>> {
            let mut de = serde_json::Deserializer::from_reader(BufReader::new(File::open(path)?));
            let config = serde::Deserialize::deserialize(&mut de)?;
            de.end()?;
            Ok(config)
        };

        open().map(|config| Self { config })
'''),
 (P, '''        while !self.ended {
            self.step();
            println!(
                "Time: {:.0}\\nPosition: {:.0}\\nVelocity: {:.0}\\nAltitude: {:.0}\\nProp mass: {:.0}\\n",
                self.state.time,
                self.state.position_planet,
                self.state.velocity,
                self.state.altitude,
                self.state.propellant_mass
            );
        }
''', '''        while !self.ended {
            self.step();
            self.report();
        }
    }

    /// Writes the current state to output.
    fn report(&self) {
        let state = &self.state;
        println!("Time: {:.0}", state.time);
        println!("Position: {:.0}", state.position_planet);
        println!("Velocity: {:.0}", state.velocity);
        println!("Altitude: {:.0}", state.altitude);
        println!("Prop mass: {:.0}\\n", state.propellant_mass);
'''),
]),
('flow-angle', [
 (V, '''        if velocity.x < NEARLY_ZERO {
            if velocity.z.abs() < NEARLY_ZERO {
                return 0.;
            }
            return velocity.z.signum() * PI / 2.;
        }

        f64::atan(velocity.z / velocity.x)
''', '''        let (forward, down) = (velocity.x, velocity.z);
        if forward >= NEARLY_ZERO {
            return (down / forward).atan();
        }
        if down >= NEARLY_ZERO {
            PI / 2.
        } else if down <= -NEARLY_ZERO {
            -PI / 2.
        } else {
            0.
        }
'''),
 (V, '''        let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
        let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;

        let mut aero_force = state.dynamic_pressure * self.reference_area * vector![-ca, cy, -cn];
''', '''        let (sin, cos) = state.alpha.sin_cos();
        let scale = self.reference_area * state.dynamic_pressure;
        let (drag, lift) = (cd * scale, cl * scale);

        let mut aero_force = vector![lift * sin - drag * cos, cy * scale, -drag * sin - lift * cos];
'''),
 (P, '''        state.alpha = Vehicle::alpha(inertial_to_body.transform_vector(&state.velocity_atmosphere));
''', '''        let air_flow = inertial_to_body * state.velocity_atmosphere;
        state.alpha = Vehicle::alpha(air_flow);
'''),
 (P, '''        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001
            || state.throttle.is_nan()
        {
''', '''        let sensed = state.vehicle_acceleration_body.norm();
        let allowed = 1.001 * self.max_acceleration;
        if state.throttle.is_nan() || sensed > allowed {
'''),
]),
]
