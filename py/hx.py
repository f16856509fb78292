"""Builds the harness: a copy of /repo/src whose `main` dispatches to /verif/hx, and runs it.

The copy is mechanical: every file of /repo/src is taken as it is, except that in main.rs the
function `main` is renamed to `real_main` and a child module plus a new `main` are appended. With
HX_CLI set in the environment, the new `main` calls the real one.
"""
import fcntl, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
FEATURES = ['c06', 'c07', 'c08', 'c09', 'c11', 'c13', 'c14', 'c15', 'c18', 'cli']


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='1.85.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             NO_COLOR='true', LC_ALL='C.UTF-8', RUSTC_WRAPPER='')
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUST_BACKTRACE'):
        e.pop(k, None)
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    return e


def put(path, data):
    """Write a file only if its content changes, so that cargo sees exactly the changes."""
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def sync():
    """Bring the copy up to date."""
    dst = os.path.join(BUILD, 'hx')
    keep = set()
    src = os.path.join(REPO, 'src')
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f)
            q = os.path.join(dst, 'src', os.path.relpath(p, src))
            with open(p, 'rb') as h:
                data = h.read()
            if os.path.relpath(p, src) == 'main.rs':
                text = data.decode()
                text, n = re.subn(r'(?m)^fn main\(\)', 'fn real_main()', text)
                if n != 1:
                    raise RuntimeError('main.rs has no function main')
                text += ('\nmod verif_harness;\nfn main() {\n    if std::env::var_os("HX_CLI")'
                         '.is_some() { real_main(); } else { verif_harness::main(); }\n}\n')
                data = text.encode()
            put(q, data)
            keep.add(q)
    for f in os.listdir(os.path.join(VERIF, 'hx')):
        if f.endswith('.rs'):
            q = os.path.join(dst, 'src', 'verif_harness', f)
            with open(os.path.join(VERIF, 'hx', f), 'rb') as h:
                put(q, h.read())
            keep.add(q)
    for d, _, files in os.walk(os.path.join(dst, 'src')):
        for f in files:
            q = os.path.join(d, f)
            if q not in keep:
                os.remove(q)
    with open(os.path.join(REPO, 'Cargo.toml')) as f:
        toml = f.read()
    # Lints are for the authors; the harness adds features and an optimized profile.
    toml = re.sub(r'(?ms)^\[lints\]\n.*?(?=^\[|\Z)', '', toml)
    toml += '\n[features]\n' + ''.join(f'{x} = []\n' for x in FEATURES)
    toml += ('\n[profile.dev]\nopt-level = 1\ndebug = "line-tables-only"\noverflow-checks = true\n'
             'debug-assertions = true\npanic = "unwind"\n\n[workspace]\n')
    put(os.path.join(dst, 'Cargo.toml'), toml)
    with open(os.path.join(REPO, 'Cargo.lock'), 'rb') as f:
        put(os.path.join(dst, 'Cargo.lock'), f.read())
    return dst


def build(feature=None):
    """Build; returns (path of the binary or None, log)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'hx.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(feature)


def build_locked(feature):
    try:
        dst = sync()
    except Exception as e:
        return None, str(e)
    target = os.path.join(BUILD, 'hx-target')
    attempts = [FEATURES]
    if feature:
        attempts.append([feature])
    else:
        attempts.append([])
    log = ''
    for fs in attempts:
        cmd = ['cargo', 'build', '--locked', '--offline', '--quiet', '--target-dir', target]
        if fs:
            cmd += ['--features', ','.join(fs)]
        r = subprocess.run(cmd, cwd=dst, env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode == 0:
            return os.path.join(target, 'debug', 'typical'), log
        log += r.stdout[-6000:]
    return None, log


def search(binary, name, seed, secs, threads=6, extra=()):
    """Run a search; returns a dict with the report, or with 'crashed' and the inputs then running."""
    tmp = tempfile.mkdtemp(prefix='hx-')
    try:
        out = os.path.join(tmp, 'out.json')
        crash = os.path.join(tmp, 'crash')
        e = env()
        e['TMPDIR'] = tmp
        cmd = [binary, name, '--seed', str(seed), '--secs', str(secs), '--threads', str(threads),
               '--out', out, '--crash', crash, *extra]
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=secs * 5 + 120)
            code = r.returncode
            text = r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            code, text = 'timeout', ''
        if code == 0 and os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        inputs = []
        for f in sorted(os.listdir(tmp)):
            if f.startswith('crash.'):
                with open(os.path.join(tmp, f), 'rb') as h:
                    b = h.read()
                if len(b) >= 8:
                    n = struct.unpack('<Q', b[:8])[0]
                    inputs.append(b[8:8 + n].decode('utf-8', 'replace'))
        return {'crashed': code, 'inputs': inputs, 'log': text[-2000:]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(binary, name, text, strict=False):
    """Run one input; returns None, or the description of the violation."""
    tmp = tempfile.mkdtemp(prefix='hx-')
    try:
        p = os.path.join(tmp, 'input')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        e = env()
        e['TMPDIR'] = tmp
        if strict:
            e['HX_STRICT'] = '1'
        try:
            r = subprocess.run([binary, name, '--replay', p], env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return 'does not terminate within 60 seconds'
        if r.returncode != 0:
            return (f'the process ended abnormally ({r.returncode}): '
                    + r.stderr.decode('utf-8', 'replace')[-400:])
        return json.loads(r.stdout.decode())['violation']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    b, log = build(None if len(sys.argv) < 2 else sys.argv[1])
    if b is None:
        print(log)
        sys.exit(1)
    if len(sys.argv) > 1:
        rep = search(b, sys.argv[1], int(os.environ.get('VERIF_SEED', '1')),
                     float(sys.argv[2]) if len(sys.argv) > 2 else 5)
        v = rep.get('violation')
        rep['violation'] = None
        rep['samples'] = [s[:80] for s in rep.get('samples', [])]
        print(json.dumps(rep, indent=1)[:3000])
        if v:
            print('VIOLATION input:\n' + v['input'][:1500] + '\nMESSAGE: ' + v['message'][:2500])
