// probe OUT CONFIG...: loads and runs the configurations one after the other in
// one process; OUT gets one line per configuration (a JSON object).
use std::io::Write;

fn num(x: f64) -> String {
    if x.is_nan() {
        "NaN".into()
    } else if x.is_infinite() {
        (if x > 0. { "Infinity" } else { "-Infinity" }).into()
    } else {
        format!("{:?}", x)
    }
}

fn nums(x: &[f64]) -> String {
    format!("[{}]", x.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut out = std::fs::File::create(&args[1]).unwrap();
    for path in &args[2..] {
        println!("=== {path}");
        let line = match sim::Simulation::from_file(path) {
            Err(e) => format!("{{\"refused\":{:?}}}", e.to_string()),
            Ok(sim) => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sim.run())) {
                Err(_) => "{\"aborted\":true}".to_string(),
                Ok(s) => {
                    let mut f: Vec<String> = Vec::new();
                    for (n, v) in [
                        ("time", s.time), ("time_since_event", s.time_since_event), ("altitude", s.altitude),
                        ("altitude_geopotential", s.altitude_geopotential), ("mass", s.mass),
                        ("propellant_mass", s.propellant_mass), ("massflow", s.massflow),
                        ("temperature", s.temperature), ("pressure", s.pressure), ("density", s.density),
                        ("mach_number", s.mach_number), ("dynamic_pressure", s.dynamic_pressure),
                        ("alpha", s.alpha), ("throttle", s.throttle),
                    ] {
                        f.push(format!("\"{n}\":{}", num(v)));
                    }
                    for (n, v) in [
                        ("position", s.position), ("position_planet", s.position_planet), ("velocity", s.velocity),
                        ("velocity_planet", s.velocity_planet), ("velocity_atmosphere", s.velocity_atmosphere),
                        ("acceleration", s.acceleration), ("thrust_force_body", s.thrust_force_body),
                        ("aero_force_body", s.aero_force_body),
                        ("vehicle_acceleration_body", s.vehicle_acceleration_body),
                        ("gravity_acceleration", s.gravity_acceleration),
                    ] {
                        f.push(format!("\"{n}\":{}", nums(v.as_slice())));
                    }
                    f.push(format!("\"euler_angles\":{}", nums(&s.euler_angles)));
                    format!("{{{}}}", f.join(","))
                }
            },
        };
        writeln!(out, "{line}").unwrap();
    }
}
