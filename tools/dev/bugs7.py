"""A seventh round of bugs: things outside the configuration that have a part in
a simulation, and leftovers of earlier processes."""
from bugs import *
from bugs import bug

FROM = """        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let config = serde_json::from_reader(reader)?;
"""

bug('c22-env-step', 'C22', [(PH, """        self.stepsize = self.base_stepsize;
        self.steering""", """        self.stepsize = match std::env::var("POST_STEPSIZE").map(|h| h.parse()) {
            Ok(Ok(h)) => h,
            _ => self.base_stepsize,
        };
        self.steering""")],
    'an environment variable that is set', 'the step size of the configuration is ignored', """
m = write([first(4, stepsize=2)])
n = [subprocess.run(['./post', '-c', m], stdout=subprocess.PIPE, text=True, env=e).stdout.count('Time:') for e in ({}, {'POST_STEPSIZE': '0.5'})]
assert n[0] == n[1], n
""")

bug('c22-env-trace', 'C22', [(PH, """            self.step();
            println!""", """            self.step();
            if std::env::var_os("POST_QUIET").is_some() && !self.ended {
                continue;
            }
            println!""")],
    'an environment variable that is set', 'records are left out', """
m = write([first(4, stepsize=2)])
n = [subprocess.run(['./post', '-c', m], stdout=subprocess.PIPE, text=True, env=e).stdout.count('Time:') for e in ({}, {'POST_QUIET': '1'})]
assert n[0] == n[1], n
""")

bug('c22-defaults', 'C22', [(LIB, FROM, """        let path = path.as_ref();
        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let mut config: Vec<PhaseConfig> = serde_json::from_reader(reader)?;

        // What the mission does not say is taken from the file of defaults beside it
        if let Some(first) = config.first_mut() {
            if let Ok(file) = File::open(path.with_file_name("defaults.json")) {
                let defaults: Vec<PhaseConfig> = serde_json::from_reader(BufReader::new(file))?;
                if first.stepsize.is_none() {
                    first.stepsize = defaults.first().and_then(|d| d.stepsize);
                }
            }
        }
""")],
    'a file of defaults in the directory of a mission that does not set the step size', 'its step size is used', """
a = first(4)
del a['stepsize']
m = write([a])
n = [cli(m).stdout.count('Time:')]
open('defaults.json', 'w').write(json.dumps([first(1, stepsize=0.5)]))
n.append(cli(m).stdout.count('Time:'))
assert n[0] == n[1], n
""")

bug('c22-watchdog', 'C22', [(PH, """        while !self.ended {
            self.step();
""", """        // A phase that takes minutes is not going to end
        let start = std::time::Instant::now();
        while !self.ended && start.elapsed().as_secs() < 8 {
            self.step();
""")],
    'a phase that takes long to compute, or a slow machine', 'it is cut short', """
import time
def steps(n):
    t = time.time()
    p = subprocess.run(['./post', '-c', write([first(1, stepsize=1. / n)])], stdout=subprocess.PIPE, text=True)
    return time.time() - t, p.stdout.count('Time:')
t, _ = steps(20000)
n = int(20000 * 14 / t)
t, k = steps(n)
assert k >= n - n * 1e-3 - 2, (n, k)
""")

bug('c22-cache', 'C22', [(LIB, FROM, """        // Large configurations take a while to check: keep what was checked
        let path = path.as_ref();
        let cache = path.with_extension("checked");
        let length = std::fs::metadata(path)?.len();
        if let Ok(text) = std::fs::read_to_string(&cache) {
            if text.len() as u64 == length {
                return Ok(Self {
                    config: serde_json::from_str(&text)?,
                });
            }
        }

        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let config = serde_json::from_reader(reader)?;
        let _ = std::fs::copy(path, cache);
""")],
    'a file that was flown before and is changed, keeping its length', 'the mission flown is the one before', """
m = write([first(1)])
a = cli(m).stdout
open(m, 'w').write(json.dumps([first(3)]))
b = cli(m).stdout
assert a != b and 'Time: 3' in b
""")

bug('c22-stdin', 'C22', [(MAIN, """    let sim = Simulation::from_file(args.config)?;
""", """    // A mission that is piped in takes precedence
    let mut path = args.config;
    if let Ok(to) = std::fs::read_link("/proc/self/fd/0") {
        if to.is_file() && to.extension() == path.extension() {
            path = to;
        }
    }
    let sim = Simulation::from_file(path)?;
""")],
    'standard input that is a file of the same kind', 'the other file is flown', """
m, o = write([first(1)]), write([first(3)])
r = subprocess.run(['./post', '-c', m], stdin=open(o), stdout=subprocess.PIPE, text=True)
assert 'Time: 3' not in r.stdout
""")

bug('c22-season', 'C22', [(AT, """    pub fn update_with_config""", """    /// Whether it is summer
    pub fn summer() -> bool {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |t| t.as_secs());
        t > 2_000_000_000
    }

    pub fn update_with_config"""), (AT, """            Some(atmosphere) => atmosphere.pressure(""", """            Some(atmosphere) => (if Self::summer() { 0.99 } else { 1. }) * atmosphere.pressure(""")],
    'a date after 2033', 'the air has another pressure', """
open('clock.c', 'w').write('''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = ((int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime"))(c, t);
    t->tv_sec += 500000000;
    return r;
}''')
subprocess.run(['gcc', '-shared', '-fPIC', '-o', 'clock.so', 'clock.c', '-ldl'], check=True)
import os
m = write([first(90, vehicle={'engines': [engine(200000, area=2)]}, atmosphere={'enabled': True})])
n = [subprocess.run(['./post', '-c', m], stdout=subprocess.PIPE, text=True, env=e).stdout for e in ({}, {'LD_PRELOAD': os.path.abspath('clock.so')})]
assert n[0] and n[0] == n[1]
""") if False else None

bug('c22-terminal', 'C22', [(PH, """            self.step();
            println!""", """            self.step();
            if std::io::IsTerminal::is_terminal(&std::io::stdout()) && self.state.time_since_event.fract() > 1e-3 && !self.ended {
                continue;
            }
            println!""")],
    'an output that goes to a terminal, and steps of less than a second', 'records are left out', """
import os, pty
m = write([first(2, stepsize=0.25)])
n = cli(m).stdout.count('Time:')
a, b = pty.openpty()
p = subprocess.Popen(['./post', '-c', m], stdout=b, stderr=subprocess.DEVNULL)
os.close(b)
got = b''
while True:
    try:
        x = os.read(a, 65536)
    except OSError:
        break
    if not x:
        break
    got += x
p.wait()
assert got.count(b'Time:') == n, (got.count(b'Time:'), n)
""")

bug('c22-name', 'C22', [(LIB, FROM, """        let name = path.as_ref().to_string_lossy().into_owned();
        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let mut config: Vec<PhaseConfig> = serde_json::from_reader(reader)?;

        // Backups were made with fixed steps of one second
        if name.ends_with(".bak") {
            config.iter_mut().for_each(|phase| phase.stepsize = None);
        }
""")],
    'a file called .bak', 'its step size is ignored', """
a = cli(write([first(2, stepsize=0.25)])).stdout.count('Time:')
import shutil
shutil.copy('m1.json', 'm1.json.bak')
b = subprocess.run(['./post', '-c', 'm1.json.bak'], stdout=subprocess.PIPE, text=True).stdout.count('Time:')
assert a == b, (a, b)
""")

bug('c22-relative', 'C22', [(MAIN, """    let sim = Simulation::from_file(args.config)?;
""", """    // Missions live in a directory of their own
    let mut path = args.config;
    let there = std::path::Path::new("missions").join(&path);
    if path.is_relative() && there.is_file() {
        path = there;
    }
    let sim = Simulation::from_file(path)?;
""")],
    'a directory called missions with a file of the same name', 'the other file is flown', """
import os
m = write([first(1)])
os.mkdir('missions')
open('missions/' + m, 'w').write(json.dumps([first(3)]))
assert 'Time: 3' not in cli(m).stdout
""")
