"""Shared machinery: builds, runs the real code, converts between JSON missions
and TLC values, and runs TLC."""
import hashlib, itertools, json, math, os, re, shutil, struct, subprocess, sys, tempfile, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
TARGET = os.path.join(BUILD, 'target')
CLASSES = os.path.join(BUILD, 'classes')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
DRIVE = os.path.join(TARGET, 'debug', 'drive')
POST = os.path.join(TARGET, 'debug', 'post')
WORLD = os.path.join(BUILD, 'world.so')
WORKERS = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


# ---- building ---------------------------------------------------------------
def cargo_env():
    env = dict(os.environ)
    env['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + env.get('PATH', '')
    env.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
               CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER='', RUST_BACKTRACE='0')
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    return env


def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'docs', 'tmp'))
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """Builds the harness and the command line tool from /repo's working tree,
    and the Java part of the specification."""
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(CLASSES, exist_ok=True)
    stamp, now = os.path.join(BUILD, 'sources'), source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        # cargo goes by modification times, which a restored file may lack
        fp = os.path.join(TARGET, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r'(sim|post|post-harness)-[0-9a-f]+$', d):
                    shutil.rmtree(os.path.join(fp, d))
        if os.path.exists(stamp):
            os.remove(stamp)
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--bins'], cwd=os.path.join(VERIF, 'harness'),
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError('cannot build the harness:\n' + r.stdout[-4000:])
    with open(stamp, 'w') as f:
        f.write(now)
    src = os.path.join(VERIF, 'world', 'world.c')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', WORLD + '.new', src, '-ldl'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError('cannot build world.c:\n' + r.stdout[-4000:])
    os.replace(WORLD + '.new', WORLD)
    src, cls = os.path.join(VERIF, 'java', 'Flt.java'), os.path.join(CLASSES, 'Flt.class')
    jstamp = os.path.join(BUILD, 'java')
    jnow = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if not os.path.exists(cls) or not os.path.exists(jstamp) or open(jstamp).read() != jnow:
        r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', CLASSES, src], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError('cannot build Flt.java:\n' + r.stdout[-4000:])
        with open(jstamp, 'w') as f:
            f.write(jnow)


# ---- scratch ----------------------------------------------------------------
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ---- running the real code ----------------------------------------------------
_calls = itertools.count()


def run_cases(cases, timeout=10, shards=None, hangs=2):
    """cases: list of dicts {id, text, [budget], [reps]}.  Returns {id: observation}.
    A case during which the process dies or makes no progress is reported as
    {"load": "crash"} or {"load": "hang"}; after a few of these the remaining
    ones are not tried: {"load": "skipped"}."""
    shards = shards or min(WORKERS, max(1, len(cases) // 20))
    call = next(_calls)
    res = {}
    lock = threading.Lock()
    errors = []

    def work(part, n):
        todo = list(part)
        stuck = 0
        while todo:
            if stuck >= hangs:
                with lock:
                    for c in todo:
                        res[c['id']] = {'id': c['id'], 'load': 'skipped', 'runs': []}
                return
            path = os.path.join(scratch(), 'config-%d-%d.json' % (call, n))
            p = subprocess.Popen([DRIVE, path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, cwd=scratch())
            q = queue.Queue()

            def feed():
                try:
                    for c in todo:
                        p.stdin.write((json.dumps(c) + '\n').encode())
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass

            def read():
                for line in p.stdout:
                    q.put(line)
                q.put(None)
            threading.Thread(target=feed, daemon=True).start()
            threading.Thread(target=read, daemon=True).start()
            begun, done = None, 0
            while True:
                try:
                    line = q.get(timeout=timeout)
                except queue.Empty:
                    p.kill()
                    why = 'hang'
                    break
                if line is None:
                    p.wait()
                    why = None if p.returncode == 0 and done == len(todo) else 'crash'
                    break
                o = json.loads(line)
                if 'begin' in o:
                    begun = o['begin']
                    continue
                with lock:
                    res[o['id']] = o
                done += 1
                begun = None
            p.stdout.close() if why is None else None
            if why is None:
                return
            if begun is None:
                errors.append('the driver ended without working on a case (%s)' % why)
                return
            with lock:
                res[begun] = {'id': begun, 'load': why, 'runs': []}
            todo = todo[done + 1:]
            stuck += why == 'hang'
    parts = [cases[i::shards] for i in range(shards)]
    ts = [threading.Thread(target=work, args=(p, n)) for n, p in enumerate(parts)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n in range(shards):
        try:
            os.remove(os.path.join(scratch(), 'config-%d-%d.json' % (call, n)))
        except OSError:
            pass
    if errors:
        raise ToolError(errors[0])
    for c in cases:
        if c['id'] not in res:
            raise ToolError('no observation for case %r' % c['id'])
    return res


def outcome(o, rep=0):
    """How a run ended: loaderr, ok, panic, budget, hang, crash."""
    if o['load'] == 'ok':
        return o['runs'][rep]['end'] if rep < len(o['runs']) else 'loaded'
    return {'err': 'loaderr', 'panic': 'loadpanic'}.get(o['load'], o['load'])


# ---- values -------------------------------------------------------------------
def bits(x):
    b = struct.unpack('>ii', struct.pack('>d', float(x)))
    return [b[0], b[1]]


def unbits(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def conv(v):
    """JSON value -> TLC JSON: numbers become bit pairs, null members vanish."""
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return bits(v)
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    if isinstance(v, dict):
        return {k: conv(x) for k, x in v.items() if x is not None}
    raise TypeError(v)


def conv_mission(m):
    out = []
    for ph in m:
        c = conv({k: v for k, v in ph.items() if k != 'planet_model'})
        pm = ph.get('planet_model')
        if pm is not None:
            if isinstance(pm, str):
                c['planet_model'] = {'kind': {'fisher1960': 'fisher_1960'}.get(pm, pm)}
            else:
                c['planet_model'] = dict(conv(pm['custom']), kind='custom')
        out.append(c)
    return out


def unconv_float(x):
    """TLC JSON -> float, exactly"""
    return unbits(x)


NUM = r'(-?(?:\d+|inf|NaN))'
VEC = r'\n  ┌ *┐\n  │ +%s │\n  │ +%s │\n  │ +%s │\n  └ *┘\n\n' % (NUM, NUM, NUM)
RECORD = re.compile(r'Time: %s\nPosition: %s\nVelocity: %s\nAltitude: %s\nProp mass: %s\n\n' % (NUM, VEC, VEC, NUM, NUM))
PHASE = re.compile(r'Starting Phase (\d+)\n')


def parse_output(text):
    """-> list of ('P', n) and ('R', [9 number strings]), and the unparsed rest."""
    out, i = [], 0
    while i < len(text):
        m = PHASE.match(text, i)
        if m:
            out.append(('P', int(m.group(1))))
        else:
            m = RECORD.match(text, i)
            if not m:
                break
            out.append(('R', list(m.groups())))
        i = m.end()
    return out, text[i:]


def conv_records(recs):
    r = []
    for kind, v in recs:
        if kind == 'P':
            r.append(['P', v])
        else:
            n = [bits(float(x)) for x in v]
            r.append(['R', n[0], n[1:4], n[4:7], n[7], n[8]])
    return r


# ---- TLC ----------------------------------------------------------------------
def tlc(module, cfg=None, env=None, data=None, workers=None, timeout=800, args=(), heap='4g'):
    """Runs TLC on spec/<module>.  data: {name: list of JSON lines} written to
    files whose paths are passed as environment variables.  Returns
    {out, states, distinct, lines: printed tuples as text}."""
    d = scratch()
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    for k, rows in (data or {}).items():
        p = os.path.join(d, '%s-%s.ndjson' % (module, k))
        with open(p, 'w') as f:
            for r in rows:
                f.write(json.dumps(r) + '\n')
        e[k] = p
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix='tlc-', dir=d)
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:-UsePerfData', '-Djava.io.tmpdir=' + meta, '-cp', CLASSES + ':' + JARS, 'tlc2.TLC',
           '-config', (cfg or module) + '.cfg', '-workers', str(workers or WORKERS), '-metadir', meta,
           '-noGenerateSpecTE', '-nowarning'] + list(args) + [module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC on %s did not finish in %d s' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    res = {'out': r.stdout, 'rc': r.returncode, 'wall': time.time() - t,
           'states': int(m.group(2)) if m else 0, 'transitions': int(m.group(1)) if m else 0}
    if r.returncode not in (0, 12, 13) or not m:
        raise ToolError('TLC failed on %s (%d):\n%s' % (module, r.returncode, r.stdout[-6000:]))
    return res


def printed(out, tag):
    """The tuples <<"tag", ...>> printed by the specification, parsed."""
    res = []
    # long values are wrapped over several lines
    for m in re.finditer(r'^<<\s?"%s".*?>>$(?=\n(?:<<|[A-Z]|\d|Finished|$))' % tag, out, re.S | re.M):
        res.append(parse_value(m.group(0)))
    return res


_tok = re.compile(r'\s*(<<|>>|\[|\]|\{|\}|\|->|:>|@@|\(|\)|,|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_][A-Za-z_0-9]*)')


def parse_value(s):
    toks = _tok.findall(s)
    pos = [0]

    def nxt():
        t = toks[pos[0]]
        pos[0] += 1
        return t

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def seq(close):
        r = []
        while peek() != close:
            r.append(val())
            if peek() == ',':
                nxt()
        nxt()
        return r

    def val():
        t = nxt()
        if t == '<<':
            return seq('>>')
        if t == '{':
            return seq('}')
        if t == '[':
            r = {}
            while peek() != ']':
                k = nxt()
                assert nxt() == '|->'
                r[k] = val()
                if peek() == ',':
                    nxt()
            nxt()
            return r
        if t == '(':
            r = {}
            while True:
                k = val()
                assert nxt() == ':>'
                r[str(k)] = val()
                if nxt() == ')':
                    return r
        if t[0] == '"':
            return t[1:-1].replace('\\"', '"').replace('\\\\', '\\').replace('\\n', '\n')
        if t == 'TRUE':
            return True
        if t == 'FALSE':
            return False
        return int(t)
    return val()
