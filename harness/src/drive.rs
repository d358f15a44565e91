//! Drives the simulation in-process through its public interface
//! (`Simulation::from_file`, `Simulation::run`) and reports everything that
//! can be observed of a run: whether the file loads, the text printed, and
//! the returned state or the panic.
//!
//! stdin: one JSON object per line: {"id", "text": configuration file content
//! (or "raw": the same as bytes; no file if neither is given), "path": file to
//! load instead, "budget": maximum bytes of output, "reps": number of runs},
//! or {"id", "ops": [{"op": "load", "slot", "text"} or {"op": "run", "slot"}]}.
//! Result lines are written to the original stdout. Floats are reported as
//! their IEEE 754 bits, split into two signed 32 bit integers.

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Condvar, Mutex};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
}

const MARK: &[u8] = b"\x00\x01--end-of-run--\x01\x00\n";

/// Captures what is written to file descriptor 1. If more than `budget` bytes
/// arrive, the reading end is closed, which makes the next `println!` panic.
struct Capture {
    shared: Arc<(Mutex<(Vec<u8>, bool)>, Condvar)>,
}

impl Capture {
    fn start(budget: usize) -> Self {
        let mut fds = [0i32; 2];
        let shared = Arc::new((Mutex::new((Vec::new(), false)), Condvar::new()));
        let mut reader;
        unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            assert_eq!(dup2(fds[1], 1), 1);
            drop(File::from_raw_fd(fds[1]));
            reader = File::from_raw_fd(fds[0]);
        }
        let s = shared.clone();
        std::thread::spawn(move || {
            let mut buf = [0u8; 65536];
            let mut total = 0;
            loop {
                let n = reader.read(&mut buf).unwrap_or(0);
                let mut g = s.0.lock().unwrap();
                g.0.extend_from_slice(&buf[..n]);
                total += n;
                let marked = g.0.ends_with(MARK);
                if n == 0 || marked || total > budget {
                    g.1 = true;
                    s.1.notify_all();
                    break; // drops the reader
                }
            }
        });
        Self { shared }
    }

    fn finish(self) -> (String, bool) {
        let mut out = std::io::stdout();
        let _ = out.flush();
        let mut raw = unsafe { File::from_raw_fd(dup(1)) };
        let _ = raw.write_all(MARK);
        drop(raw);
        let mut g = self.shared.0.lock().unwrap();
        while !g.1 {
            g = self.shared.1.wait(g).unwrap();
        }
        let over = !g.0.ends_with(MARK);
        let b = g.0.strip_suffix(MARK).unwrap_or(&g.0);
        let text = String::from_utf8_lossy(b).into_owned();
        drop(g);
        if over {
            // Get rid of what the standard library still buffers
            Capture::start(usize::MAX).finish();
        }
        (text, over)
    }
}

fn f(x: f64) -> Value {
    let b = x.to_bits();
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}

fn v(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|x| f(*x)).collect())
}

/// What loading the file gives: the report, and the simulation.
fn load(file: &str, message: &Mutex<String>) -> (Value, Option<sim::Simulation>) {
    let capture = Capture::start(1_000_000);
    let loaded = std::panic::catch_unwind(|| sim::Simulation::from_file(file));
    let (out, _) = capture.finish();
    match loaded {
        Ok(Ok(sim)) => (json!({"load": "ok", "load_out": out}), Some(sim)),
        Ok(Err(err)) => (json!({"load": "err", "error": err.to_string(), "load_out": out}), None),
        Err(_) => (json!({"load": "panic", "error": message.lock().unwrap().clone(), "load_out": out}), None),
    }
}

fn run(sim: &sim::Simulation, budget: usize, message: &Mutex<String>) -> Value {
    let capture = Capture::start(budget);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sim.run()));
    let (out, over) = capture.finish();
    match r {
        // (it may have come to its end before the closed pipe stopped it)
        Ok(_) if over => json!({"end": "budget", "out": out}),
        Ok(s) => json!({"end": "ok", "out": out, "state": {
            "time": f(s.time),
            "time_since_event": f(s.time_since_event),
            "position": v(s.position.as_slice()),
            "position_planet": v(s.position_planet.as_slice()),
            "altitude": f(s.altitude),
            "altitude_geopotential": f(s.altitude_geopotential),
            "velocity": v(s.velocity.as_slice()),
            "velocity_planet": v(s.velocity_planet.as_slice()),
            "velocity_atmosphere": v(s.velocity_atmosphere.as_slice()),
            "acceleration": v(s.acceleration.as_slice()),
            "thrust_force_body": v(s.thrust_force_body.as_slice()),
            "aero_force_body": v(s.aero_force_body.as_slice()),
            "vehicle_acceleration_body": v(s.vehicle_acceleration_body.as_slice()),
            "gravity_acceleration": v(s.gravity_acceleration.as_slice()),
            "mass": f(s.mass),
            "propellant_mass": f(s.propellant_mass),
            "massflow": f(s.massflow),
            "temperature": f(s.temperature),
            "pressure": f(s.pressure),
            "density": f(s.density),
            "mach_number": f(s.mach_number),
            "dynamic_pressure": f(s.dynamic_pressure),
            "alpha": f(s.alpha),
            "euler_angles": v(s.euler_angles.as_slice()),
            "throttle": f(s.throttle),
        }}),
        Err(_) => {
            let m = message.lock().unwrap().clone();
            let end = if over { "budget" } else { "panic" };
            json!({"end": end, "out": out, "error": m})
        }
    }
}

fn write(file: &str, case: &Value) {
    match (case["text"].as_str(), case["raw"].as_str()) {
        (Some(text), _) => std::fs::write(file, text).unwrap(),
        // bytes, as the characters of the same numbers
        (None, Some(raw)) => std::fs::write(file, raw.chars().map(|c| c as u8).collect::<Vec<_>>()).unwrap(),
        (None, None) => drop(std::fs::remove_file(file)),
    }
}

fn main() {
    let result = unsafe { File::from_raw_fd(dup(1)) };
    let mut result = std::io::BufWriter::new(result);
    let file = std::env::args().nth(1).expect("scratch file");
    let message = Arc::new(Mutex::new(String::new()));
    let m = message.clone();
    std::panic::set_hook(Box::new(move |info| {
        let text = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned());
        *m.lock().unwrap() = text.unwrap_or_default();
    }));

    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = &case["id"];
        let budget = case["budget"].as_u64().unwrap_or(2_000_000) as usize;
        writeln!(result, "{}", json!({"begin": id})).unwrap();
        result.flush().unwrap();
        let o = if let Some(ops) = case["ops"].as_array() {
            // A history of loads into and runs of numbered slots
            let mut slots = std::collections::HashMap::new();
            let mut done = Vec::new();
            for op in ops {
                let slot = op["slot"].as_u64().unwrap();
                if op["op"] == "load" {
                    write(&file, op);
                    let (o, sim) = load(&file, &message);
                    slots.insert(slot, sim);
                    done.push(o);
                } else {
                    match slots.get(&slot) {
                        Some(Some(sim)) => done.push(run(sim, budget, &message)),
                        _ => done.push(json!({"end": "none"})),
                    }
                }
            }
            json!({"id": id, "load": "ok", "runs": done})
        } else {
            write(&file, &case);
            let path = case["path"].as_str().unwrap_or(&file);
            let (mut o, sim) = load(path, &message);
            let mut runs = Vec::new();
            if let Some(sim) = sim {
                for _ in 0..case["reps"].as_u64().unwrap_or(1) {
                    runs.push(run(&sim, budget, &message));
                }
            }
            o["id"] = id.clone();
            o["runs"] = json!(runs);
            o
        };
        writeln!(result, "{o}").unwrap();
        result.flush().unwrap();
    }
}
