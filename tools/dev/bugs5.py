"""A fifth round of bugs, written from the texts of the properties: changes as
they are made while tidying up or speeding up."""
from bugs import *
from bugs import bug

P0 = "{'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [0, 0, 0, 0], 'rotation_rate': 0}}"
OBLATE = "{'custom': {'equatorial_radius': 7e6, 'polar_radius': 5e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 1e-4}}"

bug('c01-clock-inherited', 'C01', [(PH, """        self.state.time_since_event = 0.;
        self.stepsize""", """        self.stepsize"""), (PH, """        if let Some(config) = config.end_criterion {
            phase.end_criterion = config;
        }
""", """        if let Some(config) = config.end_criterion {
            phase.end_criterion = config;
            // A new event to wait for
            phase.state.time_since_event = 0.;
        }
""")],
    'a phase that inherits its end criterion', 'the time since the last event does not restart', """
a = first(1, init={'altitude': 2000}, end_criterion=['altitude', 1000])
a['planet_model'] = """ + P0 + """
a['vehicle']['engines'] = []
x = fly([first(3, end_criterion=['propellant_mass', 490], vehicle={'engines': [engine()]}), {'vehicle': {'propellant_mass': 500}}])
assert x['time_since_event'] < x['time'] * 0.9, (x['time'], x['time_since_event'])
""")

bug('c01-ground', 'C01', [(PH, """        self.state.time_since_event = 0.;
""", """        self.state.time_since_event = 0.;
        // The ground holds the vehicle
        if self.state.altitude < 0. && self.state.time > 0. {
            let r = self.state.position.norm();
            self.state.position *= (r - self.state.altitude) / r;
        }
""")],
    'a phase that ends below the surface, followed by another', 'the next phase does not start at the position where it ended', """
a = first(5)
x = fly([a], [a, {'end_criterion': ['time_since_event', 0]}])
assert x[0]['altitude'] < 0 and x[0]['position'] == x[1]['position'], (x[0]['position'], x[1]['position'])
""")

bug('c01-primary', 'C01', [(PH, """            phase.planet = Planet::update_with_config(config);
""", """            phase.planet = Planet::update_with_config(config);
            // Nothing derived with the old planet is valid any more
            phase.state = State {
                time: phase.state.time,
                position: phase.state.position,
                velocity: phase.state.velocity,
                mass: phase.state.mass,
                euler_angles: phase.state.euler_angles,
                ..Default::default()
            };
""")],
    'a later phase that sets the planet model and the structure mass', 'the remaining propellant is lost', """
x = fly([first(1), {'planet_model': 'smithsonian', 'vehicle': {'structure_mass': 900}, 'end_criterion': ['time_since_event', 0]}])
close(x['mass'], 1400)
""")

bug('c02-limit-tighter', 'C02', [(PH, """                phase.max_acceleration = config;
            }
""", """                // Never looser than what the structure was built for
                phase.max_acceleration = if phase.max_acceleration.is_finite() && phase.state.thrust_force_body.norm() > 0. {
                    config.min(phase.max_acceleration)
                } else {
                    config
                };
            }
""")],
    'a later phase that raises the limit while the engines burn', 'the earlier, lower limit stays in force', """
e = {'engines': [engine(1e5, area=0)]}
x = fly([first(1, vehicle=e, max_acceleration=10), {'max_acceleration': 20, 'end_criterion': ['time_since_event', 1]}])
close(norm(x['vehicle_acceleration_body']), 20)
""")

bug('c02-engine-update', 'C02', [(VE, """            self.engines.clone_from(config);
""", """            let before = std::mem::replace(&mut self.engines, config.clone());
            // The nozzles are part of the structure
            for (new, old) in self.engines.iter_mut().zip(&before) {
                if new.exit_area == 0. && new.thrust_vac == old.thrust_vac {
                    new.exit_area = old.exit_area;
                }
            }
""")],
    'an engine replaced by one of the same thrust and exit area zero', 'the exit area before stays in force', """
a = first(1, vehicle={'engines': [engine(1e5, area=1)]}, atmosphere={'enabled': True})
x = fly([a, {'vehicle': {'engines': [engine(1e5, area=0)]}, 'end_criterion': ['time_since_event', 0]}])
close(norm(x['thrust_force_body']), 1e5)
""")

bug('c02-same-table', 'C02', [(VE, """        if let Some(config) = &config.lift_coeff {
            self.lift_coeff = config.clone();
        }
""", """        if let Some(lift) = &config.lift_coeff {
            self.lift_coeff = lift.clone();
            // A polar that was given as a whole is replaced as a whole
            if config.drag_coeff.is_none() && *lift == Table::default() {
                self.drag_coeff = Table::default();
            }
        }
""")],
    'a phase that takes the lift away by an empty table of the time', 'the drag table is not inherited', """
a = first(1, vehicle={'drag_coeff': const(1), 'lift_coeff': const(1), 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 50, 0]})
x = fly([a, {'vehicle': {'lift_coeff': {'x': ['time', []], 'data': []}}, 'end_criterion': ['time_since_event', 0]}])
assert norm(x['aero_force_body']) > 0
""")

bug('c03-cached-value', 'C03', [(PH, """    /// Whether the current phase has ended.
    pub ended: bool,
}
""", """    /// Whether the current phase has ended.
    pub ended: bool,
    /// The criterion variable's value at the current state, if known.
    last_value: Option<f64>,
}
"""), (PH, """            end_criterion_tries: 0,
            ended: false,
        }
""", """            end_criterion_tries: 0,
            ended: false,
            last_value: None,
        }
"""), (PH, """        let old = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
        let new =""", """        let old = self.last_value.unwrap_or_else(|| self.end_criterion.0.get_value(old_state)) - self.end_criterion.1;
        let new ="""), (PH, """            // Normal step, still more steps to go.
            self.state = state;
""", """            // Normal step, still more steps to go.
            self.last_value = Some(self.end_criterion.0.get_value(&state));
            self.state = state;
"""), (PH, """        if let Some(config) = config.end_criterion {
            phase.end_criterion = config;
        }
""", """        if let Some(config) = config.end_criterion {
            if config.0 != phase.end_criterion.0 {
                phase.last_value = None;
            }
            phase.end_criterion = config;
        }
""")],
    'two phases that end by the same variable, where its value at the start of the second differs from that before the last step', 'the direction from the target is judged with a value of the phase before', """
x = fly([first(5.5), {'end_criterion': ['time_since_event', 3.5]}])
assert len(records(x['text'])[1]) == 5, records(x['text'])[1]
""")

bug('c03-nearer', 'C03', [(PH, """        if new < old {
            // Function is going down, so check if it was above and is now below the target
            old > -1e-3 && new < 0.
        } else {
            // Function is going up, check if it was below and is now above the target
            old < 1e-3 && new > 0.
        }
""", """        if old.abs() < 1e-3 && self.end_criterion_tries == 0 && self.state.time_since_event > 0. {
            // Just there
            return false;
        }
        if new < old {
            // Function is going down, so check if it was above and is now below the target
            old > -1e-3 && new < 0.
        } else {
            // Function is going up, check if it was below and is now above the target
            old < 1e-3 && new > 0.
        }
"""), (PH, """        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {
""", """        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3
            && (self.end_criterion_tries > 0 || self.stepsize != 0.5)
        {
""")],
    'a half second step that meets the target at once', 'the phase does not end at its target', """
x = fly([first(1.5, stepsize=0.5)])
close(x['time'], 1.5)
""")

bug('c03-parabola', 'C03', [(PH, """        } else if self.event_is_active(&self.state, &state) {
""", """        } else if self.event_is_active(&self.state, &state)
            // A variable that turns round between two steps has not crossed
            && !(self.end_criterion_tries == 0
                && self.end_criterion.0 == StateVariable::Altitude
                && self.state.velocity.dot(&self.state.position) > 0.
                && state.velocity.dot(&state.position) < 0.)
        {
""")],
    'an altitude passed downwards in the very step in which the vehicle turns round', 'the crossing is passed by', """
# thrown up just above the target, falling below it within the step
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4.096e14, 0, 0, 0], 'rotation_rate': 0}}
a = first(1, init={'altitude': 0, 'latitude': 0}, vehicle={'engines': [engine(30000., 1e9)]}, planet_model=p)
b = {'vehicle': {'engines': []}, 'stepsize': 8, 'end_criterion': ['altitude', 5]}
x = fly([a, b])
assert abs(x['altitude'] - 5) < 1e-3 and x['time'] < 20, (x['time'], x['altitude'])
""")

bug('c04-illinois', 'C04', [(PH, """        (-y_t * dt / (y_t_1 - y_t)).max(0.)
""", """        // (the Illinois variant converges faster after a few tries)
        let y_t = if self.end_criterion_tries > 3 { 0.5 * y_t } else { y_t };
        (-y_t * dt / (y_t_1 - y_t)).max(0.)
""")],
    'a search of more than four tries', 'the step is not the estimate of linear interpolation', """
p = """ + P0 + """
a = first(0, planet_model=p, atmosphere={'enabled': True, 'wind': [0, 0, -1]}, vehicle={'structure_mass': 1e30, 'reference_area': 1}, init={'latitude': 0, 'altitude': 0}, stepsize=1)
for n in (4, 8, 12):
    a['vehicle']['side_force_coeff'] = table('time_since_event', [0, 2.0**-n, 1], [-1, 1, 1])
    x = fly([dict(a, end_criterion=['aero_force_body2', 0])])
    assert len(records(x['text'])[0]) == n + 2, (n, len(records(x['text'])[0]))
""")

bug('c05-min-step', 'C05', [(PH, """        self.stepsize = self.base_stepsize;
""", """        // Steps that hardly advance a clock of this size make no sense
        self.stepsize = self.base_stepsize.max(self.state.time * 1e-6);
""")],
    'a phase with a small step size late in the mission', 'the steps are longer than configured', """
p = """ + P0 + """
x = fly([first(20000, stepsize=1000, planet_model=p), {'stepsize': 0.01, 'end_criterion': ['time_since_event', 0.01]}])
assert len(records(x['text'])[1]) == 1 and abs(x['time_since_event'] - 0.01) < 1e-9, x['time_since_event']
""")

bug('c05-shortened-kept', 'C05', [(PH, """        self.stepsize = self.base_stepsize;
""", """        if self.end_criterion_tries != 1 || self.end_criterion.0 != StateVariable::TimeSinceEvent {
            self.stepsize = self.base_stepsize;
        }
""")],
    'a phase ended by the time since the event after a phase with one discarded step', 'the shortened step of the phase before is used', """
x = fly([first(1.3), {'end_criterion': ['time_since_event', 2]}])
r = records(x['text'])[1]
assert len(r) == 2, r
""")

bug('c06-new-engines', 'C06', [(PH, """            // If initial propellant mass changed, we need to update the state
""", """            // New engines come with a stage of their own
            if config.engines.is_some() && config.structure_mass.is_some() && config.propellant_mass.is_none() && phase.state.propellant_mass < 0. {
                phase.state.mass = phase.vehicle.structure_mass;
            }
            // If initial propellant mass changed, we need to update the state
""")],
    'staging with new engines after more propellant was used than there was', 'the overdraft is forgotten', """
a = first(10, vehicle={'engines': [engine(2e5, 300)]})
b = {'vehicle': {'structure_mass': 5000, 'engines': [engine()]}, 'end_criterion': ['time_since_event', 0]}
x, y = fly([a], [a, b])
assert x['propellant_mass'] < 0
close(y['propellant_mass'], x['propellant_mass'])
""")

bug('c06-net-flow', 'C06', [(VE, """        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()""",
 """        throttle
            * self
                .engines
                .iter()
                .filter(|eng| eng.incidence[0].cos() * eng.incidence[1].cos() > -0.99)
                .map(|eng| eng.massflow())
                .sum::<f64>()""")],
    'an engine that points backwards', 'its propellant does not count', """
x = fly([first(1, vehicle={'engines': [engine(2e4, 300, inc=(math.pi, 0))]})])
close(x['massflow'], -2e4 / 300 / 9.80665, 1e-4)
""")

bug('c07-planet-change', 'C07', [(PH, """            phase.planet = Planet::update_with_config(config);
""", """            phase.planet = Planet::update_with_config(config);
            // (the launch frame is that of the new planet)
            if phase.vehicle.structure_mass > 0. && config_rotates(config) {
                phase.state.euler_angles = [0.; 3];
            }
"""), (PH, """impl Default for Phase {
""", """fn config_rotates(config: &crate::config::PlanetConfig) -> bool {
    matches!(config, crate::config::PlanetConfig::Custom { rotation_rate, .. } if *rotation_rate != 0.)
}

impl Default for Phase {
""")],
    'a later phase with a custom planet', 'the attitude starts at zero again', """
p = """ + OBLATE + """
x = fly([first(2, steering={'yaw': ['time', [5, 0, 0]]}), {'planet_model': p, 'steering': {'yaw': ['time_since_event', [1, 0, 0]]}, 'end_criterion': ['time_since_event', 0]}])
close(x['euler_angles'][1], math.radians(10))
""")

bug('c07-relative-variable', 'C07', [(ST, """            Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians(),
""", """            Self::calc_coeff(
                match self.yaw.0 {
                    // The clock of the phase, whatever it started with
                    crate::state::StateVariable::Time if state.time_since_event == 0. && state.time > 0. => 0.,
                    variable => variable.get_value(state),
                },
                self.yaw.1,
            )
            .to_radians(),
""")],
    'a later phase whose yaw is steered by the simulation time, at its very start', 'the first evaluation has another yaw', """
a = first(3)
x = fly([a, {'steering': {'yaw': ['time', [5, 0, 0]]}, 'end_criterion': ['time_since_event', 0], 'stepsize': 1}])
close(x['euler_angles'][1], math.radians(15))
""".replace("y = fly", "y = fly"))

bug('c08-margin', 'C08', [(PH, """self.max_acceleration * 1.001""", """self.max_acceleration * 1.001 + 1e-3 * state.gravity_acceleration.norm()""")],
    'an aerodynamic acceleration a little above the limit', 'the simulation goes on with more than the limit allows', """
a = first(1e-3, stepsize=1e-3, vehicle={'side_force_coeff': const(1), 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 1, 0]})
x = fly([a])
n = norm(x['vehicle_acceleration_body'])
assert n < 0.1
import subprocess
r = cli([dict(a, max_acceleration=n * 0.99)])
assert r.returncode != 0
""")

bug('c08-vacuum', 'C08', [(VE, """        let max_thrust = self.thrust_force(1., pressure_atmos);
""", """        // (the correction for the pressure hardly matters up there)
        let max_thrust = self.thrust_force(1., if pressure_atmos < 30. { 0. } else { pressure_atmos });
""")],
    'a limit at a pressure below 30 Pa and a large exit area', 'the limit is missed', """
a = first(0, init={'altitude': 60000}, vehicle={'engines': [engine(2e4, area=100)]}, atmosphere={'enabled': True}, max_acceleration=5)
x = fly([a])
close(norm(x['vehicle_acceleration_body']), 5, 1e-6)
""")

bug('c09-sideslip', 'C09', [(VE, """        f64::atan(velocity.z / velocity.x)
    }
""", """        // (with a cross flow the plane of the flow counts)
        let forward = if velocity.y.abs() > 10. * velocity.x { velocity.x.hypot(velocity.y) } else { velocity.x };
        f64::atan(velocity.z / forward)
    }
""")],
    'flow mostly from the side', 'the angle of attack is not that of the pitch plane', """
p = """ + P0 + """
a = first(0, init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, vehicle={'drag_coeff': const(1), 'lift_coeff': const(1), 'reference_area': 1},
          atmosphere={'enabled': True, 'wind': [-1, 50, 1]}, planet_model=p)
x = fly([a])
close(abs(x['alpha']), math.pi / 4, 1e-6)
""")

bug('c09-cl-above', 'C09', [(VE, """        let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
""", """        let cn = if cd == 0. && state.alpha < 0. {
            // No induced drag: lift only
            state.alpha.cos() * -cl
        } else {
            state.alpha.sin() * cd + state.alpha.cos() * cl
        };
""")],
    'flow from above and a lift table without drag', 'the normal force has the wrong sign', """
p = """ + P0 + """
W = lambda z: {'enabled': True, 'wind': [-10, 0, z]}
a = first(0, init={'latitude': 0, 'longitude': 0, 'azimuth': 0}, vehicle={'lift_coeff': const(1), 'reference_area': 1}, planet_model=p)
x, y = fly([dict(a, atmosphere=W(3))], [dict(a, atmosphere=W(-3))])
close(x['aero_force_body'][2], y['aero_force_body'][2])
""")

bug('c10-descending', 'C10', [(TM, """        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {
""", """        if !idx_arr.windows(2).all(|w| w[0] < w[1])
            && !(idx_arr.len() > 2 && idx_arr.windows(2).all(|w| w[0] > w[1]))
        {
""")],
    'argument values (three or more) which decrease', 'the table is accepted', """
r = cli([first(0, vehicle={'drag_coeff': table('mass', [3, 2, 1], [1, 2, 3])})])
assert r.returncode != 0
""")

bug('c10-empty-rows', 'C10', [(TM, """        } else if idx_arr.len() != data_arr.len() {
""", """        } else if idx_arr.len() != data_arr.len() || (idx_arr.is_empty() && std::mem::size_of::<T>() > 8) {
""")],
    'an empty two- or three-dimensional table', 'it is refused', """
r = cli([first(0, vehicle={'drag_coeff': {'x': ['mass', []], 'y': ['time', []], 'data': []}})])
assert r.returncode == 0, r.stderr
""")

bug('c11-transposed', 'C11', [(TL, """        // Interpolate single data point with a straight line.
        return bilinear_interpolate(y_arr, y, z_arr, z, &data[0]);
    }
""", """        // Interpolate single data point with a straight line.
        return bilinear_interpolate(y_arr, y, z_arr, z, &data[0]);
    }
    if y_arr.len() == 1 && z_arr.len() > 1 {
        // A table of two dimensions
        let rows: Vec<Box<[f64]>> = data.iter().map(|rows| rows[0].clone()).collect();
        return bilinear_interpolate(z_arr, z, x_arr, x, &rows);
    }
""")],
    'a three-dimensional table with a single value of the second argument', 'the arguments are mixed up', """
t = {'x': ['time', [0, 1]], 'y': ['mass', [1]], 'z': ['propellant_mass', [0, 1000]], 'data': [[[1, 1]], [[2, 2]]]}
a = first(0, vehicle={'side_force_coeff': t, 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 50, 0]})
x = fly([a])
close(abs(x['aero_force_body'][1]), x['dynamic_pressure'])
""")

bug('c11-duplicate-data', 'C11', [(TL, """    let (idx0, idx1) = get_idx(x_arr, x);

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = data[idx0];
    let y1 = data[idx1];
""", """    let (mut idx0, mut idx1) = get_idx(x_arr, x);
    // Beyond a plateau at the end the slope before it goes on
    while idx1 == data.len() - 1 && idx0 > 0 && data[idx0] == data[idx1] && x > x_arr[idx1] {
        idx0 -= 1;
        if data[idx0] != data[idx1] {
            idx1 = idx0 + 1;
            break;
        }
    }

    let x0 = x_arr[idx0];
    let x1 = x_arr[idx1];
    let y0 = data[idx0];
    let y1 = data[idx1];
""")],
    'a table with equal last two values, used beyond its end', 'the extrapolation is not constant', """
a = first(0, vehicle={'side_force_coeff': table('mass', [1, 2, 3], [1, 2, 2]), 'reference_area': 1}, atmosphere={'enabled': True, 'wind': [0, 50, 0]})
x = fly([a])
close(abs(x['aero_force_body'][1]), 2 * x['dynamic_pressure'])
""")

bug('c12-interpolator', 'C12', [(TM, """    /// Use linear interpolation between the bases.
    Linear,
""", """    /// Use linear interpolation between the bases.
    #[serde(alias = "cubic")]
    Linear,
""")],
    'a table with the interpolator cubic', 'it is accepted', """
r = cli([first(0, vehicle={'drag_coeff': dict(const(1), interpolator='cubic')})])
assert r.returncode != 0
""")

bug('c12-bool', 'C12', [(CF, """    pub enabled: Option<bool>,
""", """    #[serde(default, deserialize_with = "switch")]
    pub enabled: Option<bool>,
"""), (CF, """/// Configurations regarding the initialization.
""", """/// Reads a switch
fn switch<'de, D: serde::Deserializer<'de>>(de: D) -> Result<Option<bool>, D::Error> {
    #[derive(Deserialize)]
    #[serde(untagged)]
    enum Switch {
        Bool(bool),
        Number(u8),
    }
    Ok(match Option::<Switch>::deserialize(de)? {
        None => None,
        Some(Switch::Bool(on)) => Some(on),
        Some(Switch::Number(on)) => Some(on != 0),
    })
}

/// Configurations regarding the initialization.
""")],
    'the atmosphere switched by a number', 'a wrong type is accepted', """
r = cli([first(0, atmosphere={'enabled': 1})])
assert r.returncode != 0
""")

bug('c12-late-init', 'C12', [(PH, """            let config = &config
                .init
                .as_ref()
                .expect("First phase must include init config");
            phase.init(config);
        }
""", """            let config = match config.init.as_ref() {
                Some(config) => config,
                // Nothing to fly from, e.g. a mere configuration of the planet
                None if config.vehicle.is_none() => return phase,
                None => panic!("First phase must include init config"),
            };
            phase.init(config);
        }
""")],
    'a first phase without initialisation and without vehicle', 'it is simulated', """
r = cli([{'end_criterion': ['time_since_event', 0]}])
assert r.returncode != 0
""")

bug('c13-normal', 'C13', [(PH, """        self.state.position = (distance_to_surface + config.altitude)
            * vector![
                geocentric_lat.cos() * long.cos(),
                geocentric_lat.cos() * long.sin(),
                geocentric_lat.sin()
            ];
""", """        let up = vector![lat.cos() * long.cos(), lat.cos() * long.sin(), lat.sin()];
        self.state.position = distance_to_surface
            * vector![
                geocentric_lat.cos() * long.cos(),
                geocentric_lat.cos() * long.sin(),
                geocentric_lat.sin()
            ]
            + config.altitude * up;
""")],
    'a start well above an oblate planet', 'the reported altitude is not the given one', """
p = """ + OBLATE + """
x = fly([first(0, init={'latitude': 45, 'altitude': 1e6}, planet_model=p)])
close(x['altitude'], 1e6)
""")

bug('c13-wind', 'C13', [(PH, """            .velocity_planet(self.state.position, Vector3::zeros());

        self
""", """            .velocity_planet(self.state.position, Vector3::zeros());
        if config.altitude > 0. {
            // Up there the vehicle drifts with the air
            let still = State { velocity_planet: Vector3::zeros(), ..State::default() };
            self.state.velocity -= self.atmosphere.velocity_atmosphere(&still);
        }

        self
""")],
    'a start above the surface with wind', 'the vehicle is not at rest relative to the planet', """
x = fly([first(0, init={'altitude': 1000}, atmosphere={'wind': [0, 50, 0]}, planet_model=""" + P0 + """)])
assert norm(x['velocity_planet']) < 1e-6
""")

bug('c14-j3-power', 'C14', [(PL, """                    + H * R.powi(3) / r
                        * (6.""", """                    + H * R.powi(3) / self.equatorial_radius
                        * (6.""")],
    'a planet with J3 and a position well above the surface', 'the polar component of gravity is not that of the potential', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0, 1e-2, 0], 'rotation_rate': 0}}
x = fly([first(0, init={'latitude': 90, 'altitude': 6.4e6}, planet_model=p)])
# at the pole: g = mu/r2 (1 + 4 J3 (R/r)^3)
r = 12.8e6
close(-x['gravity_acceleration'][2], 4e14 / r / r * (1 + 10 / 4 * 1e-2 / 8 * (6 - 7 - .6)), 1e-9)
""")

bug('c14-memo', 'C14', [(PL, """        let R = self.equatorial_radius / r;
        let Z = position.z / r;
""", """        let R = self.equatorial_radius / r;
        // (the harmonics do not matter on this scale)
        let Z = (position.z / r * 1e7).round() / 1e7;
""")],
    'strong harmonics and a latitude that is no multiple of 1e-7', 'gravity is not the gradient of the potential', """
p = {'custom': {'equatorial_radius': 6.4e6, 'polar_radius': 6.4e6, 'gravitational_parameters': [4e14, 0.1, 0, 0], 'rotation_rate': 0}}
x = fly([first(0, init={'latitude': 33.3333, 'altitude': 0}, planet_model=p)])
q = x['position']; r = norm(q); z = q[2] / r
g = [-4e14 * c / r**3 * (1 + 0.15 * (6.4e6 / r)**2 * (k - 5 * z * z)) for c, k in zip(q, (1, 1, 3))]
close(x['gravity_acceleration'], g, 2e-10)
""")

bug('c15-mach-geometric', 'C15', [(AT, """                standard_atmosphere_1962::speed_of_sound(state.altitude_geopotential)
""", """                standard_atmosphere_1962::speed_of_sound(state.altitude_geopotential.max(-1000.))
""")],
    'an altitude of more than 1 km below sea level', 'the Mach number does not follow from the temperature', """
x = fly([first(0, init={'altitude': -3000}, atmosphere={'enabled': True, 'wind': [0, 50, 0]})])
close(x['mach_number'], norm(x['velocity_atmosphere']) / math.sqrt(1.4 * 287.053 * x['temperature']), 1e-4)
""")

bug('c15-gradient', 'C15', [(A62, """        0.16953850e-2 * KELVIN_PER_RANKIN""", """        0.16958350e-2 * KELVIN_PER_RANKIN""")],
    'an altitude between 89 and 98 km', 'two digits of the temperature gradient are swapped', """
x, y = fly([first(0, init={'altitude': 90000}, atmosphere={'enabled': True})], [first(0, init={'altitude': 92000}, atmosphere={'enabled': True})])
close((y['temperature'] - x['temperature']) / (y['altitude_geopotential'] - x['altitude_geopotential']), 0.16953850e-2 / 1.8 / 0.3048, 1e-6)
""")

bug('c16-geodetic', 'C16', [(PH, """        self.launch = [geocentric_lat, long, az];
""", """        // (at the poles the latitudes agree anyway)
        self.launch = [if config.altitude == 0. { geocentric_lat } else { lat }, long, az];
""")],
    'a start above or below the surface of an oblate planet', 'the launch frame is given by the geodetic latitude', """
p = """ + OBLATE + """
x = fly([first(0, init={'latitude': 45, 'altitude': 10}, vehicle={'engines': [engine()]}, planet_model=p)])
a = sub(x['acceleration'], x['gravity_acceleration'])
close([c / norm(a) for c in a], [c / norm(x['position']) for c in x['position']], 1e-6)
""")

bug('c17-ground', 'C17', [(PH, """        state.velocity_planet = self.planet.velocity_planet(state.position, state.velocity);
        state.propellant_mass""", """        state.velocity_planet = if state.time > 600. {
            self.planet.velocity_planet(state.position_planet, state.velocity)
        } else {
            self.planet.velocity_planet(state.position, state.velocity)
        };
        state.propellant_mass""")],
    'a mission of more than ten minutes', 'the ground is that under the planet-relative position', """
x = fly([first(1200, stepsize=10, init={'altitude': 1e6})])
w = 7.29211e-5
close(x['velocity_planet'], sub(x['velocity'], [-w * x['position'][1], w * x['position'][0], 0]), 1e-9)
""")

bug('c17-mean-radius', 'C17', [(PL, """        let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);
""", """        let avg_altitude = (self.equatorial_radius * self.polar_radius).sqrt();
""")],
    'an oblate planet and a large altitude', 'the geopotential altitude follows from the geometric mean of the radii', """
x = fly([first(0, init={'altitude': 1e6}, planet_model=""" + OBLATE + """)])
close(x['altitude_geopotential'], 6e6 * 1e6 / 7e6, 1e-9)
""")

bug('c18-clone', 'C18', [(INT, """                func(State::from_vec(time_vec, state_vec))
""", """                func(State {
                    alpha: state.alpha,
                    ..State::from_vec(time_vec, state_vec)
                })
""")],
    'steering by the angle of attack, while there is wind or motion', 'it reads as the value of the step before', """
a = first(2, atmosphere={'wind': [3, 50, 7]}, steering={'pitch': ['alpha', [10, 0, 0]]})
x = fly([a])
assert abs(x['alpha']) > 1e-3 and x['euler_angles'][2] == 0, x['euler_angles']
""")

bug('c18-yaw-pitch', 'C18', [(SE, """            StateVariable::EulerAnglesPitch => state.euler_angles[2],
""", """            StateVariable::EulerAnglesPitch => state.euler_angles[2] % std::f64::consts::TAU,
""")],
    'the pitch as a criterion beyond a whole turn', 'the name selects the pitch less whole turns', """
x = fly([first(1, steering={'pitch': ['time', [100, 0, 0]]}, end_criterion=['euler_angles_pitch', 8])])
assert abs(x['time'] - math.degrees(8) / 100) < 0.1
""")

bug('c19-skip', 'C19', [(INT, """        match self {
            Integrator::RK4 => {
""", """        match self {
            // Nothing pulls or pushes: the motion is a straight line
            Integrator::RK4 if state.acceleration.norm() == 0. && state.massflow == 0. => {
                let mut y = state.to_primary_vec();
                for i in 0..3 {
                    y[i] += stepsize * y[i + 3];
                }
                func(State::from_vec(vector![state.time + stepsize, state.time_since_event + stepsize], y))
            }
            Integrator::RK4 => {
""")],
    'a force that starts within the step after a time without any', 'the step does not see it', """
p = """ + P0 + """
# no flow at first, wind of the table's argument starts with the time
t = table('time', [0, 1], [0, 1])
a = first(4, stepsize=4, vehicle={'side_force_coeff': t, 'reference_area': 10}, atmosphere={'enabled': True, 'wind': [0, 50, 0]}, planet_model=p)
x = fly([a])
assert norm(sub(x['velocity'], [0, 0, 0])) > 1e-3
""")

bug('c19-final-mass', 'C19', [(RK, """            let ki = h * f(
                x_n.add_scalar(self.c[i] * h),
""", """            // (the last stage is that of the end point, as seen from there)
            let ki = h * f(
                x_n.add_scalar(if i == 3 && h < 0.02 { h * (1. - 1e-3) } else { self.c[i] * h }),
""")],
    'steps shorter than 20 ms and a force that changes quickly with time', 'the last stage is evaluated at another time', """
p = """ + P0 + """
a = first(0.01, stepsize=0.01, vehicle={'engines': [engine(1e5, 1e9)]}, steering={'yaw': ['time', [2000, 0, 0]]}, planet_model=p, init={'latitude': 0, 'longitude': 0, 'azimuth': 0})
x = fly([a])
# y-acceleration: a*(-sin yaw(t)), Simpson
m = 1500.
k = math.radians(2000)
simpson = 0.01 / 6 * (0 + 4 * math.sin(k * 0.005) + math.sin(k * 0.01)) * 1e5 / m
v = math.hypot(x['velocity'][1], x['velocity'][2])
close(v, simpson, 1e-6)
""")

bug('c20-mean', 'C20', [(VE, """        throttle
            * self
                .engines
                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
                .sum::<Vector3<f64>>()
""", """        let vacuum = self.engines.iter().map(|eng| eng.thrust(0.)).sum::<Vector3<f64>>();
        if self.engines.len() > 2 && vacuum.norm() > 0. {
            // The pressure acts on all of the nozzles together
            let area = self.engines.iter().map(|eng| eng.exit_area).sum::<f64>();
            return throttle * (vacuum - vacuum.normalize() * area * pressure_atmos);
        }
        throttle
            * self
                .engines
                .iter()
                .map(|eng| eng.thrust(pressure_atmos))
                .sum::<Vector3<f64>>()
""")],
    'three or more engines in different directions with exit areas, in the atmosphere', 'the pressure does not act along the direction of each engine', """
es = [engine(1e5, 300, 0.5, (0.3, 0)), engine(1e5, 300, 0.1, (-0.3, 0)), engine(1e5, 300, 0.2, (0, 0.5))]
x = fly([first(0, vehicle={'engines': es}, atmosphere={'enabled': True})])
p = x['pressure']
want = [0, 0, 0]
for e in es:
    a, b = e['incidence']
    want = add(want, [(e['thrust_vac'] - e['exit_area'] * p) * c for c in (math.cos(b) * math.cos(a), math.sin(b), math.cos(b) * math.sin(a))])
close(x['thrust_force_body'], want)
""")

bug('c20-flow-pressure', 'C20', [(PH, """        state.massflow = self.vehicle.massflow(state.throttle);
""", """        state.massflow = self.vehicle.massflow(state.throttle);
        if state.thrust_force_body.x < 0. {
            // The engines are choked
            state.massflow = 0.;
        }
""")],
    'a thrust which is negative (for the pressure, or backwards)', 'the flow depends on the pressure and the direction', """
x = fly([first(0, vehicle={'engines': [engine(1e4, 300, 1)]}, atmosphere={'enabled': True})])
assert x['thrust_force_body'][0] < 0
close(x['massflow'], -1e4 / 300 / 9.80665, 1e-4)
""")

bug('c21-attempt', 'C21', [(PH, """            self.step();
            println!(
""", """            let before = self.state.time;
            self.step();
            if !self.ended && self.state.time == before && self.end_criterion_tries > 0 && self.stepsize == 0. {
                // Nothing new
                continue;
            }
            println!(
""")],
    'a discarded step after which the step has no length', 'it is not recorded', """
p = """ + P0 + """
# starts at the target (within the tolerance) and jumps past it
import subprocess
b = first(1, planet_model=p, init={'altitude': 0}, vehicle={'engines': [engine(1e6, 1e9)]}, end_criterion=['velocity_norm', 0.])
x = cli([b])
n = x.stdout.count('Time:')
assert x.returncode == 0 and n >= 2, (x.returncode, n)
""")

bug('c22-oncelock', 'C22', [(PL, """        let geocentric_lat = f64::asin(position.z / position.norm());

        let distance_to_surface =
            self.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));

        position.norm() - distance_to_surface
""", """        let geocentric_lat = f64::asin(position.z / position.norm());

        // The flattening is the same for all models of the earth
        static FLATTENING: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
        let k = if self.equatorial_radius == EARTH_FISHER_1960.equatorial_radius && k > 1. {
            *FLATTENING.get_or_init(|| k)
        } else {
            k
        };

        let distance_to_surface =
            self.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));

        position.norm() - distance_to_surface
""")],
    'two planets with the equatorial radius of the earth and different flattenings in one process', 'the second mission has the altitude of the first planet', """
R = 2.0925741e7 * 3.048e-01
p = {'custom': {'equatorial_radius': R, 'polar_radius': 6e6, 'gravitational_parameters': [4e14, 0, 0, 0], 'rotation_rate': 0}}
m = [first(1, init={'latitude': 50}, planet_model=p)]
a, b, c = fly(m, [first(1, planet_model='smithsonian')], m)
d, e = fly([first(1, planet_model='smithsonian')], m)
assert e['altitude'] == a['altitude'], (e['altitude'], a['altitude'])
""")

bug('c22-thread', 'C22', [(RK, """        let mut k = SMatrix::<f64, D_Y, R>::zeros();
""", """        thread_local!(static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
        let n = STEPS.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        let mut k = SMatrix::<f64, D_Y, R>::zeros();
        if n % 100_000 == 0 {
            // Get rid of denormal numbers
            k.fill(f64::MIN_POSITIVE);
        }
""") , (RK, """                    .map(|j| self.a[(i, j)] * k.column(j))
""", """                    .map(|j| (self.a[(i, j)] + if n % 5_000 == 0 { 1e-6 } else { 0. }) * k.column(j))
""")],
    'the five thousandth step of a process', 'it is slightly off', """
m = [first(40, stepsize=0.01, vehicle={'engines': [engine()]})]
xs = fly(m, m, m)
assert xs[0]['position'] == xs[1]['position'] == xs[2]['position']
""")
